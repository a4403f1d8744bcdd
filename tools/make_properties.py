#!/usr/bin/env python3
"""Source of properties.jsonl (run by hand after editing; the output is committed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

NS='cpnest/NestedSampling.py'; SM='cpnest/sampler.py'; PR='cpnest/proposal.py'; CP='cpnest/cpnest.py'
N2='cpnest/nest2pos.py'; MO='cpnest/model.py'; PA='cpnest/parameter.pyx'; UT='cpnest/utils.py'; PL='cpnest/plot.py'
SMOKE='The two stable tests run one 2-parameter model with 8 processes and assert nothing about any number; '

prop('C01','The evidence and information of a run agree with the known answer',
 'For a model whose evidence is known analytically and whose likelihood is finite and without plateaus over the prior, the log-evidence reported by a completed run agrees with the analytic value, and the reported information with the analytic information, within the statistical error sqrt(H/nlive) of nested sampling and without systematic bias. This holds for the Metropolis and the slice samplers, any number of parallel samplers small compared with nlive, and uniform or non-uniform normalised priors. The posterior samples drawn from the run have the moments of the analytic posterior within statistical error.',
 ['inputs','configurations','schedules'],'all models with a known evidence (dimension, bounds, prior shape, likelihood shape), sampler kinds, numbers of samplers, live points and seeds, and all interleavings of samplers with the integrator',
 SMOKE+'the evidence tests that exist compare one model each with a 2-sigma band, so they are flaky and left out of the stable set.',
 [NS,SM,PR,N2],[('increment/finalise','NestedSampling.py:_NSintegralState'),('nested_sampling_loop','NestedSampling.py:NestedSampler'),('yield_sample','sampler.py')],
 [('state.logZ','running log-evidence','NestedSampling.py:_NSintegralState')],['NestedSampler.logZ','NestedSampler.state.info','CPNest.posterior_samples'])

prop('C02','The evidence accumulator is the quadrature of the recorded likelihood curve',
 'After any non-decreasing sequence of discarded log-likelihoods, each given with its number of live points and number of points replaced at once, the enclosed log-prior-volume has shrunk by replaced/live at each step starting from 0, the running log-evidence equals the log of the sum over steps of L times the prior volume removed, and the running information equals the Kullback-Leibler divergence implied by the same weights (the volume term of the very first point excepted). The refined evidence equals the trapezoidal integral of the recorded curve, and lies between the left and right rectangle sums. Adding a constant to every log-likelihood shifts both log-evidences by exactly that constant and leaves volumes and information unchanged, at any magnitude of log-likelihood.',
 ['inputs','histories'],'all sequences of log-likelihoods (including -inf at the start and magnitudes up to 1e6), live-point counts and numbers replaced per step',
 'No test looks at the accumulator: every value it produces in a test is unasserted.',
 [NS,N2],[('_NSintegralState.increment','NestedSampling.py'),('_NSintegralState.finalise','NestedSampling.py'),('log_integrate_log_trap, logsubexp','nest2pos.py')],
 [('logLs/log_vols','recorded curve','NestedSampling.py:_NSintegralState')],['state.logZ','state.info','state.log_vols','state.logLs'])

prop('C03','The live-point list is always sorted and insertions return the rank',
 'After any sequence of insertions and removals of the n worst, the list of live points holds exactly the points inserted and not removed, in non-decreasing order of log-likelihood. Inserting a point returns its position, which equals the number of points already present whose log-likelihood does not exceed its own (ties go after the points already there); searching reports the same position without changing the list; removing the n worst removes exactly the n points of lowest log-likelihood.',
 ['histories','inputs'],'all sequences of construct/insert/search/remove operations on points with arbitrary (tied, infinite) log-likelihoods',
 'No test builds the list directly or inspects it during a run.',
 [NS],[('KeyOrderedList','NestedSampling.py'),('OrderedLivePoints','NestedSampling.py')],
 [('_keys','cached sort keys, must match the items','NestedSampling.py:KeyOrderedList')],['iteration over the list','return values of add/insert_live_point/search'])

prop('C04','Nested sampling discards in order and never loses or duplicates a point',
 'Whatever the samplers answer, a point enters the live set only if its log-likelihood is strictly above the bound in force, a refused answer is asked for again and never enters the result, and the bound published to the samplers is the highest log-likelihood discarded so far. At the end the chain of nested samples is non-decreasing in log-likelihood, holds every initial live point and every accepted point exactly once and nothing else (iterations + nlive points), and each is recorded with the values the sampler sent. Populating the initial live set skips unusable answers (zero prior or likelihood) and still completes with nlive usable points.',
 ['histories','schedules'],'all sequences of sampler answers (acceptable, refused, tied, -inf), numbers of samplers from one upwards, live-point counts and tolerances',
 SMOKE+'a lost, duplicated or mis-ordered point only moves the evidence by a fraction of its error.',
 [NS],[('consume_sample','NestedSampling.py:NestedSampler'),('reset','NestedSampling.py:NestedSampler'),('nested_sampling_loop','NestedSampling.py:NestedSampler')],
 [('params','current live points','NestedSampling.py:NestedSampler'),('logLmin','shared likelihood bound','NestedSampling.py / cpnest.py:RunManager'),('queue_counter','pipe to read next','NestedSampling.py')],
 ['NestedSampler.nested_samples','messages on the consumer pipes','shared logLmin'])

prop('C05','A run stops exactly when the remaining evidence is below the tolerance',
 'A run keeps replacing live points while the estimated change of log-evidence from the remaining volume, log(Z + Lmax*exp(-iteration/nlive)) - log Z, exceeds the requested tolerance, and stops at the first step where it does not; iteration counts the replacements completed before that step and Lmax is the highest log-likelihood the samplers have reported by then. The live points left at that moment are then added in order of likelihood with a live count decreasing by one each to 1, so that the final chain and curve contain them. A smaller tolerance never gives a shorter run on the same sequence of answers.',
 ['histories','inputs'],'all sequences of sampler answers, tolerances, live-point counts and numbers of samplers',
 'Tests use the default tolerance and never compare the stopping point with anything.',
 [NS],[('condition/tolerance loop','NestedSampling.py:nested_sampling_loop, consume_sample')],
 [('condition','estimated remaining change of log-evidence','NestedSampling.py:NestedSampler')],['NestedSampler.iteration','NestedSampler.state.log_vols'])

prop('C06','Every point a sampler returns is valid for the model and respects the bound',
 'Each point produced by the Metropolis, slice or Hamiltonian sampler lies inside the prior bounds, carries exactly the log-likelihood and log-prior the user model gives at its values, and, unless it is the starting point returned unchanged because no move was accepted, has log-likelihood strictly above the bound requested and finite log-prior. A Metropolis chain never takes more than maxmcmc steps for one answer (slice: maxmcmc+1), the pool of evolving points keeps its size and contains the returned point, acceptance fractions stay in [0,1], a slice sampler whose pool holds a point above the bound answers with one above it, and no sampler lowers the shared maximum log-likelihood, which is at least that of every accepted point.',
 ['inputs','configurations','histories'],'all models (bounds, priors, likelihoods incl. zero-likelihood regions), bounds on log-likelihood, pool sizes, chain lengths, proposal mixes and random streams',
 SMOKE+'the slice and Hamiltonian samplers are not exercised by any stable test.',
 [SM,PR],[('yield_sample','sampler.py (three samplers)'),('evolve_trajectory','proposal.py:ConstrainedLeapFrog'),('in_bounds/log_prior','model.py')],
 [('evolution_points','pool of evolving points','sampler.py:Sampler')],['yield_sample results','model.log_likelihood/log_prior'])

prop('C07','Samplers leave the likelihood-constrained prior invariant',
 'If the pool of points is distributed as the prior restricted to log-likelihood above the bound, it keeps that distribution after any number of Metropolis or slice updates, for each of the provided jump proposals alone and for their default mixtures. In particular the Metropolis rule targets the user log-prior (also when non-uniform), and every proposal reports the log proposal ratio needed for this.',
 ['inputs','configurations'],'all priors, likelihood bounds, dimensions, proposals and mixtures, pool sizes and random streams',
 'Unit tests cannot see a distribution; the end-to-end tests average over it and assert nothing.',
 [SM,PR],[('MetropolisHastingsSampler.yield_sample','sampler.py'),('SliceSampler.yield_sample','sampler.py'),('EnsembleWalk/EnsembleStretch/DifferentialEvolution/EnsembleEigenVector','proposal.py'),('EnsembleSlice*','proposal.py')],
 [('log_J','log proposal ratio of the last jump','proposal.py')],['distribution of Sampler.evolution_points'])

prop('C08','Posterior weights computed from a chain are L dX / Z',
 'For any chain of nested samples ordered by log-likelihood and its number of live points N, the posterior weights are proportional to the likelihood times the prior volume assigned to each sample, where volumes depend only on the position in the chain: they shrink by a factor 1-1/N per discarded point and are equal among the final N points up to corrections of order 1/N. The weights sum to one up to discretisation error, the evidence returned with them is their normalisation and agrees with the evidence the sampler itself computes from the same chain, and adding a constant to every log-likelihood shifts the log-evidence by that constant and leaves the weights unchanged.',
 ['inputs'],'all non-decreasing log-likelihood sequences with at least N samples, N from small to hundreds, magnitudes up to 1e6',
 'Only executed at the end of smoke tests with its output unasserted.',
 [N2],[('compute_weights','nest2pos.py'),('log_integrate_log_trap','nest2pos.py')],[],['compute_weights return values'])

prop('C09','Posterior draws select rows of the input in proportion to their weights',
 'Drawing posterior samples returns only whole rows of the input chains; without replacement each row is returned at most once, in chain order, and independently with probability weight/max(weight), so the row of largest weight is always kept. Drawing exactly N samples returns N rows with replacement, each with probability proportional to its weight however the weights are normalised and including the last rows. Combining several runs without replacement keeps a row with probability proportional to its weight within its run times the evidence per sample of that run; when a number of samples is requested, rows come from every run in proportion to its evidence, requests rounded per run, for runs of different lengths, different live-point counts and for runs whose share rounds to zero.',
 ['inputs','configurations'],'all weighted chains, numbers of chains, live-point counts, requested numbers and random streams',
 'Only one call with a single chain is executed by the smoke tests; the other entry points are never called.',
 [N2],[('draw_posterior, draw_posterior_many, draw_N_posterior, draw_N_posterior_many','nest2pos.py')],[],['returned arrays'])

prop('C10','Live points behave as independent vectors of double-precision values',
 'A live point maps each of its parameter names to a double: setting one component by name changes that component only and an unknown name raises KeyError; sum, difference, multiplication and division by a number act componentwise in double precision, the in-place forms change only the left operand and the others change neither operand. Copying, pickling and sending a point to another process preserve names, values, log-likelihood and log-prior bit for bit, and the copy shares no storage with the original. Conversion to a record array gives one row with every parameter by name followed by logL and logPrior.',
 ['inputs','histories'],'all names, dimensions, doubles (incl. infinities, subnormals, huge and tiny scalars) and sequences of operations',
 'No test touches live-point arithmetic, copying or conversion directly.',
 [PA],[('LivePoint operators','parameter.pyx'),('__reduce__/__getstate__/__setstate__/copy','parameter.pyx'),('asnparray','parameter.pyx')],[('values','packed double array','parameter.pyx')],['LivePoint API'])

prop('C11','The default prior is exactly the open box and normalisation maps are inverse',
 'For any bounds a point is in bounds exactly when every component is strictly between its own limits, the default log-prior is then 0 and otherwise -infinity, and the potential is minus the log-prior. Points drawn from a model lie inside the box, have non-zero prior, and cover the box uniformly where the user prior is non-zero, each component within its own limits. The map from the unit cube sends 0 and 1 to the lower and upper limits of every parameter, is linear in between, and the map to the unit cube inverts it.',
 ['inputs'],'all bounds (any sign, scale, asymmetric, including limits exactly at a value), dimensions, user priors that exclude regions, and points inside, on and outside the limits',
 'Tests use two or three fixed boxes; the normalisation maps are never called.',
 [MO],[('in_bounds, log_prior, potential','model.py:Model'),('new_point','model.py:Model'),('from_normalised/to_normalised','model.py:Model')],[],['Model API'])

prop('C12','Files written by a run say exactly what the run computed',
 'The chain file of a run has one header naming every parameter and logL and one row per nested sample in order, whose parameters read back to the same doubles and whose log-likelihood reads back to the printed precision; the evidence file holds the final log-evidence, maximum log-likelihood and information. The arrays returned for nested, posterior, prior and MCMC samples have one column per parameter plus logL and logPrior; wherever a file name is given the file written in the output folder reads back to the array returned. Parameter names come back as given (names without white space). User overrides of the row and header formatting are honoured.',
 ['inputs','configurations','histories'],'all names, values (incl. tiny, huge, negative), numbers of samples, seeds, verbosity levels and output folders',
 SMOKE+'the files are written but never read.',
 [NS,CP,MO],[('write_chain_to_file, write_evidence_to_file','NestedSampling.py'),('strsample, header','model.py'),('get_nested_samples, get_posterior_samples, get_prior_samples, get_mcmc_samples','cpnest.py')],[],['files in the output folder','returned arrays'])

prop('C13','An interrupted run resumes as if it had not been interrupted',
 'Interrupting a resumable run by a signal at any moment while it populates or replaces live points, or taking a periodic checkpoint, saves a state from which the run can be resumed: the resumed integrator has the same live points, nested samples, evidence, volumes, information, iteration, bounds and diagnostics as at a completed iteration, and continues from there to a final chain in which no point is lost or counted twice. Every sampler process of whatever kind (Metropolis, Hamiltonian, slice) saves its own state and resumes as the same kind with the same pool, chain, chain length and acceptance. A run may be resumed with more or fewer sampler processes than it was interrupted with. A run not asked to resume, or with nothing to resume from, starts from scratch whatever saved states of another run its folder holds. The interrupted program exits with status 130 and leaves no process behind, also when the signal comes before the live points are populated.',
 ['histories','fault_sequences','configurations','schedules'],'all moments of interruption (any step of the loop, during population, repeatedly), sampler mixes, numbers of samplers and continuations',
 'No test uses resume or sends a signal.',
 [NS,SM,CP,PR],[('CheckPoint handling','NestedSampling.py:nested_sampling_loop, cpnest.py:sighandler/run/checkpoint'),('checkpoint/resume/__getstate__','NestedSampling.py, sampler.py'),('resume file naming','cpnest.py:CPNest.__init__')],
 [('nested_sampler_resume.pkl, sampler_<i>.pkl','saved state','output folder')],['resume files','exit status','state of the resumed objects'])

prop('C14','A crash while a checkpoint is written never destroys the last good checkpoint',
 'If the process dies or the disk fills up at any byte while a checkpoint of the integrator or of a sampler is being written, the resume file still holds a complete state: the previous checkpoint or the new one. A completed checkpoint replaces the previous one entirely, whatever their sizes.',
 ['crash_points','fault_sequences'],'all byte positions at which writing stops, by error or by death of the process, for first and later checkpoints of every kind of object',
 'No test writes a checkpoint, let alone fails while writing one.',
 [NS,SM],[('checkpoint','NestedSampling.py:NestedSampler.checkpoint'),('checkpoint','sampler.py:Sampler.checkpoint')],[('resume_file','saved state','output folder')],['resume file after a crash'])

prop('C15','Every valid configuration runs to completion and cleans up its processes',
 'For any combination of number of processes, Metropolis/Hamiltonian/slice samplers, verbosity 0 to 3, live points, pool size and chain length that the arguments allow, a run ends with a finite evidence, nested samples and posterior samples available from the CPNest object, all its sampler processes ended normally, and, at higher verbosity, the additional files and attributes promised for it (diagnostic plots; prior and MCMC samples at level 3). Exactly the requested numbers of samplers of each kind are started, each with the requested custom proposals and its own seed derived from the run seed.',
 ['configurations','schedules'],'all combinations of the constructor arguments over models the samplers accept',
 'Four fixed configurations are run by the tests, all Metropolis with nlive=100.',
 [CP,SM,PL],[('CPNest.__init__/run','cpnest.py'),('RunManager.connect_producer','cpnest.py'),('plot_*','plot.py')],[],['CPNest attributes','process table','output folder'])

prop('C16','A run touches nothing outside its output folder, whatever the folder is called',
 'All files a run creates, rewrites or deletes are inside its output folder, for any folder name the file system allows (spaces, shell metacharacters, quotes, leading dashes, nested or relative paths), and the folder is created if absent. A run resumed after its folder was moved or copied, or from another working directory, stays in the folder it is given. Temporary sample files of the samplers are removed once merged, and files of the user with other names are never modified or removed.',
 ['inputs','configurations'],'all output folder names and pre-existing files in and beside the folder, all verbosity levels',
 'Tests only ever use the current directory.',
 [CP,NS,SM],[('os.makedirs, os.path.join','cpnest.py'),('removal of merged sample files','cpnest.py:get_posterior_samples/get_prior_samples/get_mcmc_samples')],[],['directory tree before and after a run'])

prop('C17','The log file records exactly what is logged inside its context',
 'While a log file context is open every record of the cpnest loggers (or of the chosen logger) at or above the level of its verbosity (0 critical, 1 warning, 2 info, 3 debug) is appended to the file exactly once, and nothing logged outside the context is; contexts can be re-entered and append. Leaving it, also by an exception, removes and closes its handler, so that no handler accumulates. Changing the console verbosity takes effect for later records and is reported back.',
 ['histories'],'all sequences of enter/exit/log/raise over several log files, loggers, levels and verbosities',
 'Tests run with a log file but never read it.',
 [UT],[('LogFile, _Handler','utils.py')],[('handler','file handler of the open context','utils.py:LogFile')],['content of the log file','handlers of the logger'])

prop('C18','Jump proposals respect the ensemble and report a consistent proposal ratio',
 'Asking a proposal for a jump never changes the ensemble it was given, returns a point with the parameters of the starting point, and moves as documented: stretch along the line through a member of the ensemble by a factor between 1/2 and 2 with log ratio dimension*log(factor); differential evolution along the difference of two members; eigenvector jumps along one eigenvector of the ensemble covariance with its standard deviation; walk by a combination of deviations from the mean of three members. A cycle of proposals normalises its weights, uses only its proposals in proportion to the weights, passes the ensemble to all of them, and reports the log ratio of the proposal just used. A constrained Hamiltonian jump stays within the bounds and evaluates likelihood and prior at the point it returns.',
 ['inputs','histories'],'all ensembles (dimension, size, scale, correlation), starting points, weights, cycle lengths and random streams',
 'No test calls a proposal directly.',
 [PR],[('get_sample/get_direction','proposal.py'),('ProposalCycle','proposal.py'),('ConstrainedLeapFrog.evolve_trajectory','proposal.py')],[('ensemble','points used to build jumps','proposal.py')],['get_sample results, log_J'])

prop('C19','Prior sampling returns nlive draws from the prior and no evidence',
 'With prior sampling requested, the run returns exactly nlive points distributed as the prior within the region of non-zero likelihood, ordered by log-likelihood and independent of the likelihood values; no point is discarded or replaced and the samplers are told to stop. The prior samples it exposes contain these points and the prior draws of every sampler.',
 ['inputs','configurations','schedules'],'all priors and likelihoods, live-point counts, numbers of samplers and random streams',
 'No test uses prior sampling.',
 [NS,SM,CP],[('prior_sampling branch','NestedSampling.py:nested_sampling_loop'),('sample_prior','sampler.py:Sampler.reset'),('get_prior_samples','cpnest.py')],[],['nested_samples','prior_samples','chain file'])

prop('C20','Autocorrelation length and chain thinning are those of the data',
 'The autocorrelation of a chain is its normalised circular autocovariance: 1 at lag zero, within [-1,1], unchanged by shifting or rescaling the chain, and symmetric in the lag; the autocorrelation length is one plus twice the sum of the leading autocorrelations, from lag zero, above the tolerance. Resampling an MCMC chain keeps only rows of the chain, each at most once and at most one per autocorrelation length of the slowest parameter, always at least one, accepts every thinned point that does not decrease the log-posterior relative to the thinned point before it and otherwise accepts with probability equal to the ratio; a requested burn-in drops the first half.',
 ['inputs'],'all chains (length, dimension, correlation, log-likelihoods) and random streams',
 'Only executed in passing at verbosity 3, never asserted.',
 [N2],[('autocorrelation, acl','nest2pos.py'),('resample_mcmc_chain','nest2pos.py')],[],['returned arrays'])

prop('C21','Insertion indices are the fractional ranks of accepted points',
 'For every accepted point one insertion index is recorded, in order of acceptance, equal to its rank among the live points present at that moment (not counting those being discarded) divided by their number, hence in [0,1]. The diagnostic test uses the last nlive indices when rolling and all of them at the end, is made once per nlive replacements and records one p-value per rolling test, reports the Kolmogorov-Smirnov result for the uniform distribution, and saves all indices when asked for a file.',
 ['histories'],'all sequences of answers, numbers of samplers and live points',
 'The indices are computed in tests but not asserted.',
 [NS],[('consume_sample','NestedSampling.py:NestedSampler'),('check_insertion_indices','NestedSampling.py:NestedSampler')],[('insertion_indices, rolling_p','diagnostic history','NestedSampling.py:NestedSampler')],['NestedSampler.insertion_indices','NestedSampler.rolling_p','saved file'])

prop('C22','Samplers answer each request exactly once under any schedule',
 'Under any interleaving of the integrator and its samplers, a sampler answers every point it receives with exactly one sample on its own channel, in order, keeps sampling without sending anything while it has no request, and stops after the stop message or when the bound becomes infinite, at whatever moment (a request it then holds may stay unanswered); on a checkpoint request it saves its state and exits with status 130. Each sampler process gets its own channel. A complete run of integrator and real samplers under any schedule ends without deadlock, and every nested sample has exactly the log-likelihood and log-prior the model gives at its values, inside the bounds.',
 ['schedules','histories'],'all interleavings of integrator and samplers at message granularity, numbers and kinds of samplers, models and random streams',
 'The tests see one schedule, chosen by the operating system, per run.',
 [NS,SM,CP],[('_produce_sample','sampler.py:Sampler'),('consume_sample/reset','NestedSampling.py:NestedSampler'),('connect_producer','cpnest.py:RunManager')],[('producer_pipe/consumer_pipes','channels','cpnest.py:RunManager')],['messages on the pipes','nested_samples'])

prop('C23','The seed determines the initial draws and samplers do not share a random stream',
 'The initial prior draws of a sampler are a function of its seed and model alone: the same seed gives the same draws whatever the process, thread number or earlier use of the generator, and different seeds give different draws. In a run the samplers receive distinct seeds derived from the run seed, so no two of them start from the same draws, and two runs with the same seed give every sampler the same initial draws; the seed also names the chain file. From then on, and after the run has been interrupted and resumed, every sampler process has a random stream of its own: no two of them draw from the same state of a generator.',
 ['inputs','configurations'],'all seeds, models, pool sizes, numbers and kinds of samplers, interrupted and resumed runs',
 'No test compares two runs or resumes one.',
 [SM,NS,CP],[('np.random.seed in reset','sampler.py:Sampler.reset'),('seed+i','cpnest.py:CPNest.__init__'),('setup_random_seed, setup_output','NestedSampling.py')],[('seed','seed of the sampler','sampler.py')],['points at which the likelihood is first evaluated','chain file name'])

prop('C24',"The user's likelihood is asked only where the prior allows",
 "During a whole run, initialisation included, the user's log-likelihood is never evaluated outside the prior bounds: at every evaluation by the Metropolis and slice samplers each parameter lies strictly between its limits and the log-prior is finite, whatever is proposed; the trajectories of the Hamiltonian sampler, however long their steps, stay within the limits. Every evaluation is given a live point with exactly the parameters of the model.",
 ['inputs','histories','schedules'],'all models (bounds, priors that vanish in parts of the box), jump proposals, pools, bounds on the likelihood, step sizes and random streams',
 'Test likelihoods are defined everywhere, so an evaluation out of bounds goes unnoticed.',
 [SM,PR,MO],[('reset, yield_sample','sampler.py (three samplers)'),('evolve_trajectory_one_step_position','proposal.py:ConstrainedLeapFrog'),('in_bounds, log_prior','model.py:Model')],[],['arguments of Model.log_likelihood'])

prop('C25','Samplers adapt chain length, ensemble and length scale to their own chains',
 "After an update a sampler's chain length is the autocorrelation length of its slowest parameter over the last 5*maxmcmc recorded states, rounded down, and at least 20 (or the floor requested). During initialisation the chain length starts at maxmcmc/10 and follows the moving average, with decay time poolsize/5 samples, of 5*(2/acceptance-1), growing by the same rate after samples without acceptance, and stays between 5 and maxmcmc. While a sampler produces samples the ensemble its proposals use is set to the current pool, and the chain length estimated again, once every poolsize/4 samples. The recorded chain grows by one state per step of the Metropolis sampler and by one state per sample of the others, the last being the point produced; acceptance is the fraction of all steps accepted. The length scale of the slice sampler is multiplied by 2e/(e+c) after a sample with e expansions and c contractions (each at least 1) during its first 10*poolsize slices, and never changes afterwards.",
 ['inputs','histories'],'all recorded chains, sequences of acceptance fractions, pool sizes, chain lengths, kinds of sampler and arrivals of requests',
 'Nothing asserts on the adaptation: a wrong chain length only makes a run slower or its samples less independent.',
 [SM,PR],[('estimate_nmcmc, estimate_nmcmc_on_the_fly','sampler.py:Sampler'),('_produce_sample','sampler.py:Sampler'),('adapt_length_scale','sampler.py:SliceSampler')],[('Nmcmc','chain length','sampler.py:Sampler'),('samples','recorded chain','sampler.py:Sampler'),('mu','length scale','sampler.py:SliceSampler')],['Sampler.Nmcmc','Sampler.samples','SliceSampler.mu','ensemble given to the proposals'])

prop('C26','Hamiltonian jumps follow reflective leap-frog dynamics of the ensemble mass',
 "The mass matrix of a Hamiltonian proposal is the inverse covariance of its current ensemble, momenta are drawn from the normal distribution with that covariance, and the energy is the potential plus the kinetic energy p.C.p/2. A constrained jump visits the leap-frog positions forward and backward from its starting point with one such momentum: positions are mirrored at the prior limits, reversing that component of the momentum; where the likelihood is not above the bound the momentum is reflected about the estimated unit normal, elsewhere it is changed by the gradient of the potential. The point returned is one of the states visited, chosen with probability proportional to exp(-energy), and the log ratio reported is the energy lost, at most 0. Unconstrained trajectories can be followed back to their start. The time step is the base step times a scale whose logarithm moves by a thousandth of the excess of the acceptance over one half; trajectory lengths are the base length plus between one and five chain lengths; both bases follow from the ranges of the priors.",
 ['inputs'],'all ensembles (dimension, correlation), starting points, bounds, priors, step sizes, trajectory lengths and random streams',
 'No stable test uses the Hamiltonian sampler.',
 [PR],[('evolve_trajectory, get_sample','proposal.py:LeapFrog, ConstrainedLeapFrog'),('sample_trajectory','proposal.py:ConstrainedLeapFrog'),('update_mass, update_momenta_distribution, kinetic_energy, update_time_step, update_trajectory_length','proposal.py:HamiltonianProposal')],[('mass_matrix','inverse covariance of the ensemble','proposal.py:HamiltonianProposal')],['positions at which the likelihood is evaluated','get_sample results, log_J','momenta drawn'])

prop('C27','Periodic checkpoints are taken as often as requested',
 "With a periodic checkpoint interval, the integrator and each sampler save their state at the end of the first step (an iteration of the integrator, a sample of a sampler) at which more than the interval has passed since they last saved it, started or were resumed, so that a crash loses no more than the interval and one step; they do not save it earlier. The state saved is that between two steps. Without an interval (the default, whatever n_periodic_checkpoint says) a run that is not interrupted leaves no resume file.",
 ['histories','inputs','configurations'],'all intervals, durations of the steps, histories of requests and crashes, kinds of samplers',
 'No test asks for periodic checkpoints.',
 [NS,SM,CP],[('nested_sampling_loop','NestedSampling.py:NestedSampler'),('_produce_sample','sampler.py:Sampler'),('periodic_checkpoint_interval','cpnest.py:CPNest, RunManager')],[('last_checkpoint_time','time of the last checkpoint','NestedSampling.py, sampler.py')],['resume files'])

prop('C28','The diagnostic plots show the samples of the run',
 "At verbosity 2 and above a completed run leaves, for each parameter and for logL and logPrior, a trace plot through the nested samples in order and a normalised histogram of the posterior samples (with those of the prior samples and of the MCMC samples next to it at verbosity 3, points where the likelihood vanishes left out), a histogram of all insertion indices against the uniform density, and the final curve of log-likelihood against log-volume titled with the log-evidence and the information in bits; below that verbosity it leaves none. The plotting functions do the same for any data and leave no figure open.",
 ['inputs','configurations'],'all sample sets (sizes, scales, ties, constant columns, vanishing likelihoods), names, verbosities',
 'No test looks at a plot.',
 [CP,NS,'cpnest/plot.py'],[('plot_chain, plot_hist, plot_indices','plot.py'),('plot','cpnest.py:CPNest'),('plot','NestedSampling.py:_NSintegralState')],[],['figures when they are saved','plot files'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
