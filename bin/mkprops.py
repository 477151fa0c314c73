import json
P=[]
def add(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
NS='cpnest/NestedSampling.py'; SA='cpnest/sampler.py'; CP='cpnest/cpnest.py'; PR='cpnest/proposal.py'; PA='cpnest/parameter.pyx'; N2='cpnest/nest2pos.py'; MO='cpnest/model.py'; UT='cpnest/utils.py'
add('C01','Threshold never falls and only strictly better points enter the live set',
 "In every iteration the likelihood threshold equals the highest likelihood among the points being discarded, it never decreases during a run, and a proposed point replaces a discarded one only if its likelihood is strictly above that threshold, whatever the samplers reply (equal, lower, NaN, -inf or stale values included). Consequently the nested samples come out in non-decreasing order of log-likelihood.",
 ['schedules','inputs','histories'],"every sequence of sampler replies (any likelihood values, ties, rejections, stale replies), every number of live points and samplers, every iteration",
 "The two stable tests run one smooth Gaussian and assert nothing; ties, NaN, -inf, stale replies and the order of the nested samples are never examined.",
 [NS],[('get_worst_n_live_points sets the shared threshold before the requests are sent',NS+': get_worst_n_live_points'),('strict comparison of the reply with the threshold',NS+': consume_sample')],
 [('logLmin','shared likelihood threshold',NS+', '+CP+' RunManager')],['values written to the shared threshold','messages on the sampler pipes','NS.nested_samples','chain file'])
add('C02','No live point or nested sample is ever lost, duplicated or altered',
 "Between iterations the live set holds exactly nlive points, and each iteration moves exactly as many of the lowest points to the nested samples as it accepts replacements, one per sampler. At the end the nested samples are all discarded points followed by all remaining live points, each point the sampler accepted exactly once with its coordinates, likelihood and prior unchanged, so that their number is the number of iterations plus nlive.",
 ['schedules','histories','configurations'],"every interleaving of the samplers, every nlive > number of samplers, every sequence of accepted and rejected replies, interrupted and resumed runs included",
 "The tests only check that a run ends; a point dropped, listed twice or overwritten through aliasing leaves a plausible output.",
 [NS,PA],[('insert on accept, remove the n lowest at the end of the iteration',NS+': consume_sample'),('final live points appended',NS+': nested_sampling_loop'),('messages are pickled copies of live points',PA)],
 [('params','ordered live set',NS),('nested_samples','discarded points',NS)],['NS.params between iterations','NS.nested_samples','NS.iteration','chain file'])
add('C03','Evidence bookkeeping: volumes, likelihoods and the integral agree',
 "The recorded prior volume starts at one and its logarithm falls by (points replaced)/nlive in every iteration and then by 1/(points left) for each remaining live point, and each entry is paired with the likelihood of the last point discarded. The running evidence is the rectangle sum of these entries, the final log-evidence is their trapezoidal integral, and the information is the one these weights define.",
 ['histories','configurations','inputs'],"every number of live points and samplers, every likelihood sequence, every number of iterations, interrupted and resumed runs included",
 "No test compares the evidence with anything (the accuracy tests are not stable and are left out); a wrong shrinkage or a missing final live point shifts logZ by less than its statistical error.",
 [NS,N2],[('_NSintegralState.increment / finalise',NS),('log_integrate_log_trap, logsubexp',N2)],
 [('state.logLs / state.log_vols','recorded likelihoods and log prior volumes',NS),('state.logZ, state.info','evidence and information',NS)],['NS.state after each iteration and at the end','NS.logZ','evidence file'])
add('C04','The run stops exactly when the remaining evidence is negligible',
 "Iterations stop at the first iteration boundary at which the best likelihood seen by any sampler times the remaining prior volume would raise the log-evidence by no more than the tolerance; never earlier and never later. In prior-sampling mode no iteration is made and the result is exactly nlive points drawn from the prior.",
 ['histories','schedules','configurations'],"every likelihood sequence, tolerance, nlive and number of samplers, and every interleaving of the updates of the best likelihood",
 "The tests assert nothing about when a run ends; stopping a few iterations early or late is invisible without an independent bookkeeping of the run.",
 [NS],[('condition recomputed in every iteration from logZ, logLmax and the iteration number',NS+': consume_sample'),('loop guard and prior_sampling branch',NS+': nested_sampling_loop')],
 [('condition, tolerance','remaining-evidence estimate and its limit',NS)],['number of iterations made','NS.nested_samples in prior-sampling mode'])
add('C05','A run never deadlocks and always shuts all samplers down',
 "Whatever the scheduling of the sampler processes, the number of live points and samplers and the sampler type, and even if the likelihood is -inf or NaN on part of the prior, the nested sampler never waits for a reply that no sampler owes, neither while it populates the live set nor while it iterates. After its last iteration every sampler process exits and the run returns with its results.",
 ['schedules','configurations','inputs'],"every interleaving of nested sampler and sampler processes, nlive a multiple of the number of samplers or not, every mixture of sampler types, likelihoods without support on part of the prior",
 "A test executes one schedule per run on one well-behaved likelihood and one sampler type with nlive=100 and 8 samplers; blocking needs a particular interleaving or an invalid initial point.",
 [NS,SA,CP],[('request/reply counting over one pipe per sampler',NS+': reset, consume_sample'),('threshold +inf and None as the end signal',NS+': nested_sampling_loop; '+SA+': _produce_sample'),('bounded chains',SA+': yield_sample of the three samplers'),('join of the sampler processes',CP+': run')],
 [],['blocking receives of the nested sampler','exit of every sampler process'])
add('C06','Every request gets exactly one reply, drawn above the current threshold',
 "Each sampler answers each request it takes with exactly one reply, in order, never replies unasked, and keeps sampling when there is no request. A point that a sampler found after taking a request has a likelihood strictly above the threshold in force when the request was taken, and each iteration issues one request per sampler, each carrying one of the points being discarded, only after the threshold has been raised.",
 ['schedules','histories'],"every interleaving of threshold updates, requests and free-running sampling, for every sampler type",
 "Needs threshold updates to fall between particular steps of a sampler; a reply drawn under a stale threshold is silently rejected or accepted and only biases the result.",
 [SA,NS],[('poll/recv/evolve/send loop reading the threshold after taking the request',SA+': _produce_sample'),('requests sent after get_worst_n_live_points',NS+': consume_sample')],
 [],['messages on the sampler pipes','reads and writes of the shared threshold','likelihood evaluations of the user model'])
add('C07','The shared best likelihood never decreases and bounds every sample',
 "The shared best log-likelihood never decreases, no matter how the samplers' updates interleave. At every iteration boundary it is at least the likelihood of every live point, so that the maximum likelihood written with the evidence is the maximum over the nested samples or higher.",
 ['schedules'],"every interleaving of the read-compare-write updates of all samplers, all sampler types",
 "A lost update needs two processes between the read and the write of the same shared value; no test looks at the value.",
 [SA,NS,CP],[('read-max-write of logLmax in the three samplers',SA+': yield_sample'),('shared Value',CP+': RunManager.start')],
 [('logLmax','best log-likelihood seen by any sampler',CP+' RunManager')],['writes to the shared value','evidence file'])
add('C08','An interrupt at any instant checkpoints a consistent iteration boundary',
 "If a run started with resume=True receives one of the handled signals at any instant of its iterations, the saved nested-sampling state is the state at an iteration boundary (nothing lost, duplicated or half-updated, and at most the iteration in progress is given up), every sampler saves its state and exits, and the process exits with status 130. Resuming from it continues from exactly that state and ends with the same accounting as an uninterrupted run.",
 ['crash_points','histories'],"every instant of an iteration at which the signal handler may run, every iteration, one or more interruptions in a row",
 "No test interrupts or resumes a run; the damage depends on the instruction at which the signal arrives and shows only as a few repeated or missing samples.",
 [NS,SA,CP],[('CheckPoint exception raised by the signal handler',CP+': sighandler'),('checkpoint on CheckPoint, request to samplers, exit 130',NS+': nested_sampling_loop'),('resume',NS+': resume; '+SA+': resume')],
 [],['checkpoint file content','exit status','accounting of the resumed run'])
add('C09','A crash while a checkpoint is written never costs the previous checkpoint',
 "If the process is killed at any point while it writes a checkpoint of the nested sampler or of a sampler, the checkpoint that existed before is still complete and loadable, or the new one already is. A resume after the crash therefore succeeds from one of the two states.",
 ['crash_points','fault_sequences'],"every system call of the checkpoint as crash point, for the nested sampler and every sampler type, first and later checkpoints",
 "No test kills a process; only a crash inside the short write window exposes a truncated file.",
 [NS,SA],[('write of the resume file',NS+': checkpoint; '+SA+': checkpoint')],[],['resume files after the crash'])
add('C10','A resumed run gives every sampler back its own state',
 "On resume each sampler, whatever its type, is restored with exactly the state that same sampler saved (type, pool, chain length and step adaptation, counters), its proposals act on its own restored pool, and it is attached to a channel of its own; the nested sampler's live points, nested samples, threshold and best likelihood are restored too. Resuming works with fewer or more samplers than before, and if there is no nested-sampling checkpoint everything starts from scratch. A sampler interrupted in the middle of a chain saves the pool it had before that chain.",
 ['histories','configurations'],"every mixture of sampler types, numbers of samplers before and after, verbosity levels, and every point of the run at which the checkpoint was taken (periodic or by signal)",
 "No test resumes; mixtures of sampler types and changed numbers of samplers are configurations the tests never build.",
 [CP,SA,NS,PR],[('one resume file per sampler',CP+': __init__'),('__getstate__/__setstate__/resume',SA+', '+NS+', '+PR)],[],['sampler and nested sampler objects after resume','resume files'])
add('C11','Metropolis-Hastings chains accept exactly by prior ratio, Jacobian and bound',
 "A proposed move is accepted if and only if its prior ratio times the Jacobian of the move that produced it beats a uniform random number and its likelihood is strictly above the threshold; otherwise the chain stays where it is, and every step records the current state. A chain makes at least the current chain-length estimate of steps and has at least one acceptance, or makes exactly the maximum number of steps, and the step count and acceptance fractions it reports are the true ones.",
 ['inputs','histories'],"every sequence of proposals, Jacobians, prior and likelihood values (-inf and NaN included), thresholds and chain-length settings",
 "The acceptance rule is only reached through smooth random runs whose results are not examined; a missing prior term or Jacobian biases results without failing.",
 [SA],[('MetropolisHastingsSampler.yield_sample',SA),('estimate_nmcmc_on_the_fly, estimate_nmcmc',SA)],[],['calls of the proposal and of the model','reply tuple','recorded chain','pool'])
add('C12','Slice and Hamiltonian samplers keep to the bound and the prior support',
 "The slice and Hamiltonian samplers put back into their pool, record and return only either the point they started from or a point inside the prior bounds with likelihood strictly above the threshold; for the slice sampler it also lies on the sampled line with prior above the drawn slice level. One chain leaves the pool size unchanged, and the reported counts and acceptance fractions are the true ones.",
 ['inputs','histories'],"every pool, threshold, direction, prior and bounds, all dimensions, including points next to the bounds and flat or zero-prior regions",
 "The stable tests use neither sampler.",
 [SA,PR],[('SliceSampler.yield_sample, HamiltonianMonteCarloSampler.yield_sample',SA),('ConstrainedLeapFrog reflection at bounds and likelihood contour',PR)],[],['calls of the model','pool and recorded chain','reply'])
add('C13','Every sample carries the model\'s own likelihood and prior, inside the support',
 "Every live point and nested sample has coordinates strictly inside the prior bounds with finite log-prior, and the log-likelihood and log-prior stored with it are exactly those that the user's functions return at its coordinates. This holds for every sampler type, for initial points, for mixtures of samplers, in prior-sampling mode, and after checkpoint and resume.",
 ['inputs','configurations','histories'],"every model (priors with holes, likelihoods with zero regions), sampler mixture, mode and run history",
 "The tests never re-evaluate the model at the samples; a copy that misses a field or a value cached for another point goes unnoticed.",
 [SA,PR,MO,PA,NS],[('evaluation at acceptance and copying with both fields',SA+': yield_sample; '+PA+': copy, __getstate__'),('validity filter of initial points',NS+': reset; '+SA+': reset; '+MO+': new_point')],[],['NS.nested_samples, NS.params','posterior samples'])
add('C14','Proposal cycles use every move in its turn, with its own Jacobian and ensemble',
 "A proposal cycle steps through its cycle one move per proposal, returns what that move produced together with that same move's Jacobian, contains only the given moves with normalised weights in the proportions given (a move added later takes the weight given for it relative to those of the moves already there), and never uses a zero-weight move. Setting the ensemble reaches every ensemble move in the cycle, including nested cycles and added moves, and derived quantities follow the ensemble that was set last.",
 ['histories','inputs'],"every sequence of proposing, adding moves and setting ensembles, every list of weights",
 "Tests only ever run the default cycle and look at nothing it does.",
 [PR],[('ProposalCycle.get_sample, set_cycle, set_ensemble, add_proposal, weights',PR)],[('idx, cycle','position in the cycle and the cycle itself',PR)],['returned point and log_J','calls on the individual moves'])
add('C15','Ensemble moves follow their geometry and leave the ensemble untouched',
 "The stretch move returns a point on the line through the current point and one ensemble member with a scale factor between 1/2 and 2 and a log-Jacobian of dimension times the log of that factor; the differential move adds (nearly) the difference of two distinct members, the eigenvector move adds a step along one eigenvector of the ensemble covariance, the walk move a combination of deviations of distinct members, all with zero log-Jacobian. No move changes any ensemble member.",
 ['inputs'],"every ensemble, current point and dimension (one dimension included) and every random draw",
 "A wrong Jacobian or a move that modifies a pool member biases the sampling without any failure; tests check no move.",
 [PR,PA],[('EnsembleStretch, DifferentialEvolution, EnsembleEigenVector, EnsembleWalk, EnsembleSlice*',PR),('LivePoint arithmetic creating new objects',PA)],[],['returned point, log_J and ensemble before and after'])
add('C16','Live points behave as values: independent copies, exact copies through pickling',
 "Copying or pickling a live point gives an equal point (names, coordinates, likelihood, prior) that shares no mutable coordinates with the original, arithmetic between points creates new points and leaves the operands unchanged, and in-place arithmetic changes only its left operand. Reading and writing by name touches exactly that coordinate and unknown names are rejected, and the record form of a point carries every coordinate, likelihood and prior under its own name.",
 ['inputs','histories'],"every sequence of operations on any number of points and dimensions",
 "No unit test touches the class directly; an alias between two points shows only as a silently altered sample later.",
 [PA],[('copy, __getstate__, __setstate__, __reduce__, arithmetic, item access, asnparray',PA)],[],['all points after each operation'])
add('C17','Live points stay ordered and insertion indices are true ranks',
 "The ordered live-point container stays sorted by likelihood, with as many elements as were put in minus those removed, through every sequence of insertions and removals, ties included, and inserting reports the position at which the point now is, after all points with the same or a lower likelihood. Every accepted replacement adds one insertion index, its rank among the surviving live points divided by their number, and hence between 0 and 1.",
 ['histories','inputs'],"every sequence of insertions and removals with arbitrary ties; every nlive, number of samplers and reply sequence",
 "Insertion indices are only fed into a diagnostic p-value; the tests do not look at order or ranks.",
 [NS],[('KeyOrderedList.search/add, OrderedLivePoints.insert_live_point/remove_n_worst_points',NS),('insertion index normalisation',NS+': consume_sample')],[('insertion_indices','ranks of accepted points',NS)],['container content after each operation','NS.insertion_indices'])
add('C18','Posterior samples are distinct nested samples drawn by evidence weight',
 "The sample weights are likelihood times the volume shell of nested sampling with the given number of live points (the last nlive samples counted as the final live set), normalised by the trapezoidal evidence. Posterior samples are rows of the given nested samples, unaltered, each at most once, never one of zero weight and always including one of maximal weight, and combining several runs weights each run by its evidence; drawing a fixed number of samples returns that many valid rows for every run.",
 ['inputs'],"all nested-sample sets, numbers of live points, numbers of runs and random draws",
 "No test inspects weights or posterior samples; combination of runs and fixed-size draws are never called.",
 [N2,CP],[('compute_weights, draw_posterior, draw_posterior_many, draw_N_posterior, draw_N_posterior_many',N2),('get_posterior_samples',CP)],[],['returned arrays'])
add('C19','Output files agree with the results in memory and nothing else is touched',
 "After a run the chain file holds one row per nested sample in order under the right column names, the evidence file the final evidence, best likelihood and information, and the nested, posterior, prior and chain sample files promised for the verbosity level exist and equal the arrays returned to the user, whatever the name of the output directory and the run mode (verbosity 0-3, prior sampling). Only the temporary files of the run's own samplers are removed; no other file is deleted.",
 ['configurations','inputs'],"verbosity levels, prior sampling or not, output directory names (spaces and shell characters included), numbers of samplers, small sample numbers",
 "The tests run verbosity 0-3 in the current directory and never read a file back.",
 [NS,CP,MO],[('write_chain_to_file, write_evidence_to_file',NS),('get_nested_samples, get_posterior_samples, get_prior_samples, get_mcmc_samples, run',CP),('header, strsample',MO)],[],['files in and next to the output directory','arrays returned by the getters'])
add('C20','The sampler fleet matches the request, each member with its own resources',
 "A run with n threads, of which h Hamiltonian and s slice, starts exactly n sampler processes, n-h-s of them Metropolis-Hastings, and each has its own channel to the nested sampler, its own seed, its own state file and its own proposal objects. The random streams that drive different samplers differ, both in a fresh run and in a run resumed with the same kinds of samplers at the same places.",
 ['configurations','histories'],"every combination of n, h, s, seed, fresh and resumed runs",
 "Tests only use Metropolis-Hastings samplers and cannot tell whether two processes share a seed, a file or a channel.",
 [CP,SA],[('construction of the samplers',CP+': __init__'),('connect_producer',CP+': RunManager'),('seeding in reset',SA+': reset')],[],['sampler objects after construction','first random draws of each process'])
add('C21','Log files record exactly what is logged inside their context',
 "Everything the package logs at or above the level of the chosen verbosity while a log file context is open goes to that file, and nothing logged before it is opened or after it is closed does, also when the body raises an exception and when the context is entered again, in which case the file is continued. Closing one log file does not affect another one or the console handler.",
 ['histories'],"every sequence of opening, logging at any level, raising and closing, for several log files and verbosities",
 "Tests never read a log file.",
 [UT,CP],[('LogFile.open/close/__enter__/__exit__, _Handler.set_verbosity',UT)],[],['log file contents','handlers of the package logger'])
add('C22','Prior support helpers agree with the bounds in every dimension',
 "A point is in bounds exactly if every coordinate lies strictly between its own two bounds, the default prior is 0 there and -inf elsewhere, and new points are drawn inside the bounds with finite prior. Mapping from the unit cube to the parameters is linear in each coordinate with the bounds as images of 0 and 1, and mapping back is its inverse.",
 ['inputs'],"all bounds, dimensions and points, including points on the bounds",
 "Tests use fixed models and never evaluate the helpers at the edges.",
 [MO],[('in_bounds, log_prior, new_point, from_normalised, to_normalised',MO)],[],['return values'])
add('C23','A Hamiltonian move follows its trajectory and weighs it by its energy',
 "A Hamiltonian move integrates the equations of motion from the given point with a momentum drawn with the inverse covariance of the ensemble as its covariance: half a kick by the force, then drifts (each coordinate by step times momentum times its inverse mass, mirrored in position and momentum at the prior bounds as often as needed) with full kicks between them; for the constrained move a state whose likelihood is not above the threshold (lower, equal or not a number) turns its momentum at the unit normal of the contour instead of a kick. The free move ends after its number of steps with half a kick, so that it is reversible. The constrained move returns a state of the trajectory followed in both directions of time, drawn with probability proportional to exp(-energy), or the start if none lies in the support of the prior. The log-Jacobian of either is the energy lost, at most zero, for the state returned, which carries its own likelihood and prior in the constrained case; the starting point is left unchanged and every move with finite forces ends.",
 ['inputs'],"all landscapes, bounds (landing exactly on them included), momenta, masses, normals, step numbers and thresholds",
 "No test compares a trajectory with anything; bounds hit several times in a step, states exactly on a bound or at the threshold, and trajectories wholly outside the prior do not occur in them.",
 [PR],[('evolve_trajectory, evolve_trajectory_one_step_position/momentum, check_constraint, sample_trajectory, get_sample, unit_normal, update_mass, update_momenta_distribution',PR)],[],['returned points and log_J','drawn momenta'])
add('C24','Samplers tune themselves only by what they measured, within their limits',
 "The length of memory of a series is one plus twice its autocorrelations (ends joined, relative to the variance) summed from lag zero up to the first that is not above the tolerance of a hundredth, whatever the scale and origin of the series, and one for a series that never moves. Samplers make chains as long as the longest memory over all parameters of their last 5 maxmcmc stored points, and at least 20 steps; while the pool fills, the length is the running average over poolsize/5 steps of five times 2/acceptance - 1 (growing by the same fraction when nothing was accepted), never above maxmcmc, used as a whole number not below 5. The step of a Hamiltonian move is its base step times a scale whose logarithm changes after every chain by a thousandth of the mean acceptance minus one half, and its number of steps is the base number plus one to five chain lengths (the upper end excluded). The slice width is multiplied after a chain by 2 e/(e+c), with e expansions and c contractions of its last slice (each counted as at least one), during the first 10 poolsize steps only. The check of the insertion indices compares the last nlive of them, and at the end all of them, with the uniform distribution. Posterior samples of a chain are rows of the chain thinned by its longest memory, each at most once and unaltered, compared in random order each with the one before and kept with probability the ratio of their posterior densities.",
 ['inputs','histories'],"all series, chains, acceptance histories, pool sizes, limits and sequences of insertion indices",
 "No test looks at chain lengths, steps, widths or at the diagnostic; a wrong adaptation leaves plausible output, only correlated samples.",
 [SA,N2,NS,PR],[('estimate_nmcmc, estimate_nmcmc_on_the_fly, adapt_length_scale',SA),('acl, autocorrelation, resample_mcmc_chain',N2),('check_insertion_indices',NS),('update_time_step, update_trajectory_length',PR)],
 [('Nmcmc, Nmcmc_exact','length of the chains',SA),('mu','slice width',SA),('scale, dt, L','Hamiltonian step',PR),('rolling_p','p-values of the insertion indices',NS)],['these attributes after each chain','returned rows and lengths'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
import re
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
print(len(P))
