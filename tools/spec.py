"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/spec.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G, E, N, I, K = ('StateModel/Gaussian.py', 'MomentMatching/Estimator.py', 'ExpectationPropagation/Nodes.py',
                 'ExpectationPropagation/Iterations.py', 'Filters/KalmanFilter.py')
U, TT, MC, MM = ('MomentMatching/UnscentedTransform.py', 'MomentMatching/TaylorLinearisation.py',
                 'MomentMatching/MonteCarloTransform.py', 'MomentMatching/MomentMatch.py')
DS = 'Systems/DynamicSystem.py'
SYS = ['Systems/UniformNonlinearGrowthModel.py', 'Systems/BearingsOnlyTracking.py',
       'Systems/BearingOnlyTrackingTurn.py', 'Systems/L96.py', 'Systems/TestDynamics.py']
DB, ME, PL, LA = 'Utils/Database.py', 'Utils/Metrics.py', 'Utils/Plot_Helper.py', 'Utils/linalg.py'
FS, BO, IB = 'Experiments/EP_FullSweep.py', 'Experiments/EP_Sweep_BearingsOnly.py', 'Experiments/IEKS_Sweep_BearingsOnly.py'


def mech(*pairs):
    return [{'name': n, 'where': w} for n, w in pairs]


P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, state=state, observe=observe))


prop('C01', 'The moment and natural views of a Gaussian state always agree',
     'A Gaussian built from mean and covariance, or from precision and shift, reports all four quantities consistently: '
     'the precision is the inverse covariance and the shift is the precision times the mean, whichever is read first, '
     'however often, and on copies. Reading never changes a value already reported, the arrays passed in stay as they '
     'were, and states compare equal when they describe the same distribution and unequal when their means or covariances '
     'clearly differ. A flat unit factor has zero precision '
     'and shift, and a state whose precision is not positive definite is never reported with a positive definite covariance.',
     ['inputs', 'histories'], 'all means and positive definite covariances (dimensions 1-40, 17 decades of scale, '
     'condition up to 1e8, coordinates in very different units), both constructions, all orders of reading the views; improper and flat natural parameters',
     'The tests read a few views of a few fixed well-scaled states once, in one order.', [G],
     mech(('lazy conversion between parametrisations', G + ':natural_to_moment, moment_to_natural'),
          ('cached views', G + ':Gaussian.mean/cov/precision/shift')),
     'runtime monitor: random read histories against a dense inverse',
     'Sampled states and read orders; tolerance scales with the condition number.',
     state=[{'name': 'moments / naturals', 'meaning': 'the two cached parametrisations', 'where': G}])

prop('C02', 'Products, quotients and powers of Gaussians are exact',
     'The product, quotient and real power of Gaussians are the Gaussians of the correspondingly combined densities, '
     'whatever parametrisation the operands were built from or already read in: a factor multiplied in and divided out '
     'again leaves the state it started from, unit factors are neutral, and powers distribute over products. Operations '
     'return new states and never change their operands.',
     ['inputs', 'histories'], 'all pairs of proper states and of messages that are no densities, all real powers, all expression histories up to 60 operations',
     'The tests multiply and divide a few fixed states; they do not explore histories, powers, or operands whose views were '
     'already computed.', [G],
     mech(('natural-parameter arithmetic', G + ':Gaussian.__mul__/__truediv__/__pow__')),
     'runtime monitor: independent natural-parameter ledger over operation histories',
     'Sampled operands and histories.')

prop('C03', 'Scores and samples of states describe the reported distribution',
     'The score of a state at a point is minus the log of its density there, the squared error is the squared distance of '
     'the mean from that point, and the summary metrics over a trajectory are the root of the mean squared error and the '
     'mean score, pairing states and truths in order. Samples of a state have its mean and covariance, the requested number '
     'and shape, and are determined by the global random seed.',
     ['inputs'], 'all states of dimension 1-6 (components in units up to ten decades apart) and points near or far (vectors or single-row matrices), all trajectory lengths',
     'Tests check one score and no sample statistics.', [G, ME],
     mech(('log density', G + ':Gaussian.nll'), ('squared error', G + ':Gaussian.squared_error'),
          ('sampling', G + ':Gaussian.sample'), ('trajectory metrics', ME)),
     'runtime monitor: independent Cholesky log-density, z-tests on recorded draws',
     'Sampled states; statistical tests at 6.5 standard errors.')

prop('C04', 'Moment matching is exact for affine maps',
     'For an affine function of a Gaussian state the unscented and Taylor transforms return the exact output mean, output '
     'covariance and state-output covariance, for every input and output dimension, transform parameters and either '
     'parametrisation of the state, also when the covariance is singular. The Monte Carlo transform satisfies the same '
     'identities for the sample it drew.',
     ['inputs', 'configurations'], 'all affine maps R^d to R^m, all states, all unscented parameters with positive spread, '
     'both calling conventions of functions (row batches or single vectors)',
     'Tests use one or two fixed scalar or square maps and default parameters.', [U, TT, MC, MM],
     mech(('sigma points and weights', U), ('linearisation', TT), ('sample moments', MC)),
     'runtime monitor: closed-form affine moments', 'Sampled maps, states and parameters.')

prop('C05', 'Each transform computes its documented moments of nonlinear maps',
     'For a nonlinear function the unscented transform returns the scaled unscented moments for its parameters, with the '
     'exact mean of quadratic functions for the parameters that promise it; the Taylor transform returns the function at the '
     'state mean, with covariances propagated through its Jacobian there; the Monte Carlo transform returns the unbiased '
     'sample moments of the requested number of draws from the state, reproducible from the global seed. Results depend only '
     'on the arguments of the call, not on earlier uses of the same transform, and the state passed in is not changed.',
     ['inputs', 'configurations', 'histories'], 'all smooth maps R^d to R^m, states, parameters, sample counts; sequences of '
     'uses of one transform object',
     'Tests check one fixed nonlinear map per transform.', [U, TT, MC],
     mech(('sigma points and weights', U + ':_sigma_points, _weights'), ('Jacobian', TT + ':_transform'),
          ('draws', MC + ':_transform')),
     'runtime monitor: independent reference moments at the function boundary',
     'Sampled maps; statistical part at 6.5 standard errors.')

prop('C06', 'The measurement projection is Gaussian conditioning with tempered noise',
     'Projecting a state through a measurement returns the state conditioned on that measurement under the joint moments of '
     'the measurement transform, with the measurement noise covariance divided by the power. The result is a proper symmetric '
     'Gaussian never wider than the state, for scalar or vector measurements in any accepted shape, and arguments are not '
     'modified. An improper state or innovation is refused with a linear algebra error instead of being returned.',
     ['inputs', 'configurations'], 'all states, measurement maps, measurements, noise covariances, powers, transforms, units of the components',
     'Tests exercise it only through two runs on scalar models.', [E],
     mech(('measurement projection', E + ':Estimator.proj_meas')),
     'runtime monitor: independent joint conditioning (covariance and information form)', 'Sampled inputs.')

prop('C07', 'The time projection is the prediction with tempered noise',
     'Projecting a state through the dynamics returns the predictive mean of the transition transform and the predictive '
     'covariance, including the transition noise, divided by the power. The result is a proper symmetric Gaussian and a new '
     'state, and arguments are not modified; a prediction that is not proper is refused with a linear algebra error.',
     ['inputs', 'configurations'], 'all states, transition maps, noise covariances, powers, transforms, units of the components',
     'Tests exercise it only through two runs on scalar models.', [E],
     mech(('time projection', E + ':Estimator.proj_trans')),
     'runtime monitor: independent predictive moments', 'Sampled inputs.')

prop('C08', 'The backward projection is Gaussian smoothing towards the next belief',
     'The backward projection smooths a state towards a belief about its successor under the joint moments of the transition: '
     'with standard power that belief is the given next state, and with any other power it is the prediction times the '
     'powered forward cavity of the successor. Smoothing towards the prediction itself changes nothing, the result is '
     'symmetric, and arguments are not modified.',
     ['inputs', 'configurations'], 'all states, next beliefs, transition maps, noises, powers, transforms, units of the components',
     'Tests never call it directly and never with a power other than one on a vector state.', [E],
     mech(('backward projection', E + ':Estimator.proj_back')),
     'runtime monitor: independent smoothing identity and joint information form', 'Sampled inputs.')

prop('C09', "Every node's marginal stays the product of its incoming messages",
     'At every moment of an inference run, for every node, the marginal equals the product of its forward, backward and '
     'measurement messages (times whatever initial factor mismatch the user supplied), for any schedule, power, damping and '
     'any pattern of failed updates.',
     ['schedules', 'histories', 'fault_sequences', 'configurations'], 'all update schedules (fair or not), powers, dampings, '
     'models, transforms and injected projection failures',
     'Tests run one fixed sweep order on one model and look at final values only.', [N],
     mech(('message replacement', N + ':Node.power_update'), ('forward replacement', N + ':Node.fwd_update')),
     'online monitor: natural-parameter ledger after every update', 'Sampled runs; every update of every run is checked.',
     state=[{'name': 'marginal, forward, measurement and backward factors', 'meaning': 'the belief and the three messages of a node', 'where': N}])

prop('C10', 'Every update follows the damped power-EP protocol',
     'Each update forms its cavity by removing the message it refines (powered), projects through the right function with the '
     'right measurement, and replaces the message by the damped combination of old and new, with the marginal moved '
     'accordingly; an update whose result would not be proper is dropped without trace, and the last node has no backward '
     'update. The shipped sweeps apply the updates in their documented order: forward and measurement updates from first to '
     'last, backward updates from last to first.',
     ['schedules', 'histories', 'configurations'], 'all models, transforms, powers, dampings, schedules',
     'Tests look only at a few final numbers of one run.', [N, I],
     mech(('updates', N + ':Node.fwd_update, meas_update, back_update'), ('sweeps', I)),
     'online monitor: reference message equations from recorded projections', 'Sampled runs; every update checked.')

prop('C11', 'Failed updates leave no trace and runs continue',
     'If the projection of an update fails numerically or yields an improper result, the update changes nothing at any node, '
     'the run goes on as if it had not been attempted, and once failures stop a linear model still reaches the exact '
     'posterior. Any other exception, or an interrupt, surfaces to the caller with every node as before that update, and the '
     'run can be resumed.',
     ['crash_points', 'fault_sequences', 'schedules'], 'a failure at every projection call of a run, before or after the work, '
     'of every kind; random storms of failures',
     'Tests inject no failures.', [N],
     mech(('validation before assignment', N + ':Node.fwd_update, meas_update, back_update'), ('validation', LA + ':validate_covariance')),
     'fault injection at every projection call with bit-exact state comparison', 'All projection points of sampled short runs.')

prop('C12', 'Every marginal of a run is a proper Gaussian',
     'Whatever the model, (finite) measurements, transform, power, damping and schedule, after every update every marginal has a '
     'finite mean and a finite, symmetric, positive definite covariance that passes the validation of the library itself.',
     ['inputs', 'schedules', 'configurations'], 'hostile measurements and noises, all schedules, powers up to 2, dampings up to 1',
     'Tests run benign data.', [N, E, LA],
     mech(('validation of projections and marginals', N), ('validation', LA + ':validate_covariance')),
     'online invariant monitor under hostile workloads', 'Sampled runs; deterministic transforms and Monte Carlo.')

prop('C13', 'Updates are local and graphs do not interfere',
     'An update changes only the marginal and one message of its own node; states and arrays handed out earlier, the '
     'measurements, noises and prior given by the user keep their values. Independent graphs, even sharing a system, '
     'measurements or estimator, do not influence one another, and a deep copy of a graph is a snapshot that stays as it was '
     'and can be advanced on its own to the same result.',
     ['schedules', 'histories'], 'all interleavings of updates of several graphs, all sharing patterns, snapshots at any moment',
     'Tests use one graph at a time and keep no earlier states.', [N, G],
     mech(('new states instead of in-place changes', N), ('neighbour copies', N + ':Node.copy')),
     'online monitor: bitwise comparison of all other state, differential interleavings', 'Sampled interleavings.')

prop('C14', 'The graph wires every node to its own data',
     'A chain of N nodes links each node to its direct neighbours, and only the first starts from the prior of the system. '
     'The update of step k uses measurement k, the transition at the time of that step (start time plus k step lengths, or '
     'the keyword arguments given for it), the noises of the system, and the power and damping of the estimator, whether the '
     'graph is built in one call or in stages, and a graph already in use that is given another estimator or another system '
     'works with those from then on.',
     ['configurations', 'programs'], 'all chain lengths, step lengths, keyword lists, ways of building (also nodes made by hand and graphs bound again), schedules',
     'Tests build one chain and check little of its wiring.', [N],
     mech(('construction', N + ':build_nodes, node_estimator, node_system')),
     'boundary monitor: arguments seen by user functions and projections', 'Sampled builds.')

prop('C15', 'On linear models one undamped sweep is the exact posterior',
     'For linear Gaussian models, after one undamped forward-backward sweep with any power and any affine-exact transform '
     'every marginal equals the exact posterior of its state given all measurements, and after the forward half the exact '
     'filtering distribution; further sweeps stay there, and replacing the measurements leads to their posterior.',
     ['inputs', 'configurations'], 'all linear Gaussian models and measurements, powers 0.1-2, unscented and Taylor transforms',
     'Tests compare on one scalar model.', [N, E, I],
     mech(('sweep', I + ':ep_fwd_back_updates'), ('updates', N), ('projections', E)),
     'differential monitor: dense joint conditioning', 'Sampled models up to dimension 5 and 12 steps.')

prop('C16', 'Fair schedules and damping reach the same exact posterior',
     'On linear Gaussian models any fair schedule without damping, with power at most one, reaches the exact posterior within '
     'a number of rounds proportional to the chain length and stays there; damped sweeps approach the same posterior at a '
     'geometric rate.',
     ['schedules', 'configurations'], 'all orders of updates in which each message is refreshed once per round; dampings 0.3-0.9',
     'Tests run one order without damping.', [N, I],
     mech(('updates', N), ('damping', N + ':Node.power_update')),
     'bounded-progress monitor on random schedules', 'Bounds established empirically with margin (2T+8 rounds).')

prop('C17', 'The first EP sweep is the Gaussian filter and smoother',
     'With standard power and no damping, the forward half of the first sweep gives exactly the filtered states of the '
     'Gaussian filter with the same transforms, and the backward half exactly its smoothed states, also for nonlinear models.',
     ['inputs', 'configurations'], 'all models, measurements, unscented and Taylor transforms',
     'Tests compare on one scalar model and seed.', [N, E, K, I],
     mech(('graph', N), ('filter', K + ':KalmanFilterSmoother')),
     'differential monitor between the two engines', 'Sampled models; tolerance covers different rounding.')

prop('C18', 'Kalman filter and smoother are exact on linear models',
     'For linear Gaussian models, with time- or input-dependent dynamics, any step length, start time and prior, the filter '
     'returns for every step the exact distribution given the measurements so far, and the smoother the exact distribution '
     'given all of them, in order, one per measurement.',
     ['inputs', 'configurations'], 'all linear Gaussian models (also measurements that depend on time or input), start times, step lengths, inputs, prior overrides, measurement shapes',
     'Tests compare against stored numbers of one scalar nonlinear run.', [K],
     mech(('filter', K + ':kalman_filter'), ('smoother', K + ':kalman_smoother')),
     'differential monitor: dense joint conditioning', 'Sampled models.')

prop('C19', 'Prediction, correction and smoothing steps are Gaussian identities',
     'For nonlinear models each prediction, correction and smoothing step is the Gaussian identity applied to the moments of '
     'the transform in use - the one for measurements in corrections - with the noises of the system, and a whole run is the '
     'recursion of these steps. Steps return new states, do not modify what they are given, and give the same answer when '
     'repeated.',
     ['inputs', 'configurations'], 'all models, states, measurements, transforms (also different for measurements)',
     'Tests compare final numbers of one run.', [K],
     mech(('steps', K + ':predict, correct, smooth')),
     'runtime monitor: independent moments and conditioning', 'Sampled models.')

prop('C20', 'The iterated extended filter performs Gauss-Newton measurement updates',
     'Each measurement update of the iterated extended filter with k iterations equals k Gauss-Newton steps on the posterior '
     'of that state, using every measurement component: one iteration is the extended Kalman filter, linear models give the '
     'Kalman filter for every k, and converged updates are stationary points of that posterior.',
     ['inputs', 'configurations'], 'all smooth models, vector measurements, iteration counts, time- and input-dependent dynamics and measurements',
     'No test uses it.', [K],
     mech(('iterated update', K + ':IEKF._iterated_update')),
     'runtime monitor: independent Gauss-Newton in information form', 'Sampled models.')

prop('C21', 'The iterated extended smoother performs Gauss-Newton trajectory steps',
     'With k iterations the iterated extended smoother equals one extended smoothing pass followed by k-1 exact smoothing '
     'passes of the model linearised along the previous trajectory; linear models give the exact smoother for every k, and '
     'converged trajectories are stationary. Runs can be repeated, on the same or other measurements, with the same answer, '
     'and leave the model as it was, also when a run fails.',
     ['inputs', 'configurations', 'histories'], 'all smooth models, iteration counts, sequences of runs of one object, runs that fail part way',
     'No test uses it.', [K],
     mech(('iterations', K + ':IEKS.__call__'), ('linearisation', K + ':IEKS._linearise')),
     'runtime monitor: dense solution of each linearised problem', 'Sampled models.')

prop('C22', 'Filtering is causal and repeatable',
     'Filtered states depend only on the measurements up to their time: filtering a prefix gives the prefix, changing later '
     'measurements changes nothing earlier, and filtering on from the last state and time equals one run. The same object '
     'run again gives the same answer; this holds for the filter, the iterated filter and the forward half of a graph sweep.',
     ['inputs', 'histories'], 'all models, measurement sequences, split points, repeated runs',
     'Tests run each filter once over a whole sequence.', [K, N, I],
     mech(('recursion', K + ':kalman_filter'), ('forward half', I + ':kalman_filter')),
     'metamorphic monitor over prefixes, suffixes, restarts', 'Sampled models.')

prop('C23', 'Results do not depend on the units of states and measurements',
     'Rescaling and shifting the state coordinates, or applying an invertible affine map to the measurements, with noises and '
     'prior changed accordingly, changes filter, smoother and power-EP results by exactly that map; with Taylor moments this '
     'also holds for mixing state coordinates.',
     ['inputs', 'configurations'], 'all models, scalings, shifts and invertible maps',
     'Tests use one set of units.', [E, K, N, U, TT],
     mech(('moments', U + ', ' + TT), ('updates', E + ', ' + K)),
     'metamorphic monitor: transformed runs', 'Sampled models and maps.')

prop('C24', 'Linear algebra guards accept exactly what is valid',
     'Validation raises a linear algebra error exactly for covariances that are not positive definite, the jittered factor '
     'and solve reproduce the symmetric matrix and system they are given up to the stated jitter, and none of them changes '
     'its arguments.',
     ['inputs'], 'symmetric matrices of every spectrum and right-hand sides, dimensions 1-7, several scales',
     'Tests do not call them.', [LA],
     mech(('validation', LA + ':validate_covariance'), ('jitter', LA + ':jittered_chol, jittered_solve')),
     'runtime monitor: prescribed spectra', 'Sampled matrices away from the rounding boundary.')

prop('C25', 'Simulated data follows the model',
     'A simulated trajectory has the requested length; each state is the transition of the previous one at its time plus '
     'transition noise, each measurement is the measurement function at that state plus measurement noise, and the start '
     'state is the given one or a draw from the prior. Noises have the mean and covariance of their models, independent over '
     'components of different sources and over time; the same seed gives the same data, and returned arrays share memory '
     'neither with one another nor with the start state.',
     ['inputs', 'configurations'], 'all models (also noise-free and rank-deficient noise, nonzero noise means, functions that return their argument), lengths, start times, step lengths, start states',
     'Tests simulate one model and check shapes or means loosely.', [DS],
     mech(('simulation', DS + ':_simulate, simulate'), ('noise', DS + ':GaussianNoise')),
     'runtime monitor: residuals of every simulated step, z-tests', 'Sampled models; statistical part above 6 standard errors.')

prop('C26', 'The benchmark systems obey their stated equations',
     'The growth model, the two bearings-only tracking models, the Lorenz 96 model and the test dynamics implement their '
     'equations, noise covariances, priors and dimensions for every parameter, sensor layout, time and state - including '
     'targets that turn slowly or not at all - for single states and row by row for batches, with derivatives that match. '
     'Motion obeys its conservation laws, and the Lorenz 96 start state is read from the given file or generated for the '
     'requested dimension and forcing.',
     ['inputs', 'configurations'], 'all states, times, step lengths, noise levels, sensor lists, dimensions, forcings',
     'Tests simulate them only with default parameters.', SYS,
     mech(('transition and measurement functions', ', '.join(SYS))),
     'runtime monitor: independent equations, conservation laws, numerical derivatives', 'Sampled parameters and states.')

prop('C27', 'Stored arrays and tables survive exactly',
     'Arrays and lists stored in a results database come back bit for bit. Simulated data keeps the first value per seed and '
     'step, results keep the last value per setting and iteration, every other row is untouched, creating a table again '
     'changes nothing, and exactly the committed rows survive a crash and are visible to other readers.',
     ['inputs', 'histories', 'crash_points'], 'all arrays (any shape, order, dtype, NaN and infinities), histories of create, '
     'insert, commit, rollback, crash and reopen',
     'No test touches the database.', [DB],
     mech(('adapters', DB + ':adapt_array, convert_array'), ('uniqueness', DB + ':create_*_table, insert_*_data')),
     'offline checker: operation histories against a reference store', 'Sampled histories.')

prop('C28', 'Every completed sweep is logged durably with its own metrics',
     'A logged run of n sweeps records, right after each sweep, one result (per reported quantity) with the next iteration '
     'number, the settings of the run and the metrics of the marginals at that moment, durable before the next sweep starts. '
     'If a sweep fails, the error surfaces and exactly the completed sweeps are on record; other rows and the marginals are '
     'the same as without logging, and without ground truth nothing is logged.',
     ['crash_points', 'histories', 'configurations'], 'all models, numbers of sweeps, starting iteration numbers, failure points',
     'No test runs it.', [I, BO],
     mech(('logging loop', I + ':ep_iterations'), ('component-wise loop', BO + ':ep_iterations')),
     'trace monitor from a second connection plus fault injection', 'Sampled runs; every sweep of a run is audited.')

prop('C29', 'Experiment sweeps are resumable, complete and reproducible',
     'A sweep logs, for every combination of seed, transform, power and damping, every iteration with the metrics of an '
     'independent run on the data of that seed, which is recorded as well. Combinations whose last iteration is on record are '
     'skipped unless overriding is requested, a combination that fails numerically does not affect the others, and after an '
     'interruption at any point a rerun completes the records to those of an undisturbed sweep.',
     ['histories', 'crash_points', 'fault_sequences', 'configurations'], 'all grids, iteration counts, override choices, sequences '
     'of sweeps, failures inside updates or scoring, kills and lost connections at any statement',
     'No test runs a sweep.', [FS, BO, DB],
     mech(('sweep', FS + ':full_sweep, power_sweep'), ('component-wise sweep', BO + ':full_sweep, power_sweep'),
          ('transform selection', FS + ':select_transform'), ('command', FS + ':main, ' + BO + ':main')),
     'history checker with marked results, fault injection at statements and evaluations', 'Sampled histories and crash points.')

prop('C30', 'Component-wise metrics score exactly their own components',
     'For the turning target, the position, velocity and turn-rate errors and scores are those of the exact marginal '
     'distributions of these components, in that order, for the EP and the iterated-smoother experiments; an error in one '
     'component does not change the scores of another.',
     ['inputs'], 'all states and truths of the turning target, any trajectory length',
     'No test calls them.', [BO, IB],
     mech(('component split', BO + ':node_metrics'), ('component split', IB + ':componentwise_metrics')),
     'runtime monitor: independent marginalisation', 'Sampled states.')

prop('C31', 'Plots show the reported means and uncertainty bands',
     'Plots of estimated states draw the means against the step number with a band of 1.96 standard deviations of the first '
     'component, plots of repeated runs draw the mean with a band of one standard deviation over the runs, truths are drawn as '
     'given, and the axis passed in is the one used.',
     ['inputs'], 'all results, lengths and numbers of runs', 'No test plots.', [PL],
     mech(('bands', PL)), 'runtime monitor: rendered artists read back', 'Sampled results.')


prop('C32', 'Experiment programs record and report exactly their own runs',
     'The iterated-smoother programs and the dimension study put on record, for every seed (and dimension, quantity, power '
     'and sweep) of their plan, one row with the error and score of the estimates of that run against the simulated truth of '
     'that seed. A finished run is durable before the next one starts, and repeating an interrupted iterated-smoother program '
     'completes the record without changing rows already there. The results tables print the mean and spread over the seeds of '
     'exactly the records they name.',
     ['histories', 'crash_points', 'inputs'], 'all interruption points between runs, all stored records',
     'No test runs these programs.',
     ['Experiments/IEKS_Sweep_UNGM.py', IB, 'Experiments/IEKS_Sweep_L96.py', 'Experiments/EP_Sweep_L96.py',
      'Experiments/DisplayResults.py'],
     mech(('recording loops', 'Experiments/IEKS_Sweep_*.py, Experiments/EP_Sweep_L96.py'),
          ('tables', 'Experiments/DisplayResults.py')),
     'runtime monitor: programs killed and rerun, records audited against their own estimates and independent runs',
     'Programs are shortened at public entry points (fewer steps and iterations).')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            anchors = {'files': p['files'], 'mechanism': p['mechanism']}
            if p['state']:
                anchors['state'] = p['state']
            anchors['observe_at'] = p['observe'] or ['public entry points of ' + f for f in p['files'][:3]]
            anchors['hook_needed'] = None
            fh.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                 'quantifier': {'over': p['over'], 'text': p['text']},
                                 'why_tests_cant': p['why'], 'anchors': anchors}) + '\n')
    man = {'version': 1, 'setup_cmd': 'chmod +x run.sh && mkdir -p evidence replays',
           'checks': [{'property': p['id'],
                       'quick_cmd': './run.sh {} quick'.format(p['id']),
                       'thorough_cmd': './run.sh {} thorough'.format(p['id']),
                       'evidence_file': 'evidence/{}.json'.format(p['id']),
                       'technique': p['technique'], 'level': 'exploration',
                       'level_note': 'Runtime monitoring of the real code from the working tree. ' + p['note'] +
                       ' Trusts numpy, scipy, autograd, sqlite and matplotlib of the build environment.'} for p in P],
           'not_applicable': [],
           'notes': 'No hooks in /repo are needed: the monitors attach at public entry points at run time. Findings that were '
                    'repaired are listed in known_findings.txt.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')


main()
