"""Which module decides which property"""
import importlib

TRACE = 'TLA+ trace validation (TLC) of runs of the real code under a controlled scheduler'
SIM = ('Every recorded run of the real code is checked step by step against spec/NSTrace.tla; runs cover the explored schedules, '
       'seeds, fleets and models only. Trusts the simulated operating system of harness/simos.py (fork, pipes, shared values, signals).')
NS = ['C01', 'C02', 'C04', 'C05', 'C06', 'C07', 'C08', 'C10', 'C13', 'C03', 'C17']
WHERE = {"ns_checks": NS, "unit_checks": ["C16", "C17", "C21", "C22"], "chain_checks": ["C10", "C11", "C12", "C13"], "proposal_checks": ["C14", "C15"], "posterior_checks": ["C18"], "output_checks": ["C19", "C18", "C21"], "fleet_checks": ["C20"], "durable_checks": ["C09"], "leap_checks": ["C23"], "tune_checks": ["C24"]}
SIMULATED = {'ns_checks', 'output_checks', 'fleet_checks'}
INFO = {p: (TRACE, SIM) for p in NS}
REPLAY = 'TLA+ behaviours generated with TLC (exhaustively within small bounds, then at random) and replayed in the real classes'
def _r(spec, what):
    return (REPLAY, 'Behaviours of spec/%s: %s' % (spec, what))
CH = ('Chains of the real samplers, recorded and checked step by step against spec/ChainTrace.tla: %s. A decision that hangs on a random '
      'number is checked exactly when that number was seen, otherwise through the frequencies of acceptance (6 sigma).')
INFO['C11'] = ('TLA+ trace validation (TLC) of chains of the real sampler under an adversary generated from the specification (spec/Chain.tla)',
               CH % 'all adversaries of two steps, those of three over a smaller alphabet, random longer ones, and chains with the real proposals and models')
INFO['C12'] = ('TLA+ trace validation (TLC) of chains of the real samplers, with adversaries generated from the specification (spec/Chain.tla)',
               CH % 'Hamiltonian chains under generated adversaries, Hamiltonian and slice chains with the real proposals on models with holes, ties, NaN and corners')
INFO['C16'] = _r('LivePoint.tla', 'all sequences of operations of length 2 (3 when thorough) on one-dimensional points, random longer ones on up to 4 points in up to 4 dimensions; coordinates are small integers.')
INFO['C17'] = (TRACE + '; ' + REPLAY, SIM + ' The ordered container alone: behaviours of spec/OrderedList.tla, all short ones and random longer ones with many ties.')
INFO['C21'] = _r('LogFile.tla', 'all pairs of operations on two log files, random sequences of 12 on up to three; one process, real handlers and files.')
INFO['C22'] = _r('Support.tla', 'all positions relative to the bounds in 1-2 dimensions and samples of them in 3, at four scales; random draws for new_point.')
INFO['C14'] = ('TLA+ trace validation (TLC) of the real proposal cycles against spec/CycleTrace.tla, with cycle trees and operations generated from spec/Cycle.tla',
               'Behaviours of spec/Cycle.tla (flat, nested and growing cycles) replayed with recording moves; the package\'s own cycles with their real moves; weights also through frequencies (6 sigma).')
INFO['C15'] = ('TLA+ trace validation (TLC) of single moves of the real code against spec/Moves.tla, on ensembles enumerated with spec/MovesGen.tla',
               'All ensembles of small grids in 1-2 dimensions, samples of them in 3, random ones up to 6; the geometry is measured in floating point, the clauses are in the specification.')
INFO['C18'] = ('TLA+ behaviours with exact weights generated with TLC (spec/Weights.tla), replayed in the real functions; draws validated against spec/WeightsTrace.tla',
               'All ascending likelihood sequences up to length 4 (5 when thorough) over four levels, pairs and triples of runs sampled, long runs against a checked transcription, posteriors of whole (also resumed) runs.')
INFO['C19'] = ('TLA+ trace validation (TLC) of the file operations and results of whole runs against spec/OutputsTrace.tla; configurations from spec/Outputs.tla',
               'Whole runs in the simulated operating system over verbosity, prior sampling, fleets, output folder names, resumed or not; bounded samples of them.')
INFO['C20'] = ('TLA+ trace validation (TLC) of the fleets the real code starts against spec/FleetTrace.tla; requests and resumes from spec/Fleet.tla',
               'All requests up to 4 samplers (6 when thorough) with fresh and sampled resumed lives, default and user-supplied proposals, in the simulated operating system; a few runs with real processes.')
INFO['C09'] = ('TLA+ trace validation (TLC) of what the real code resumes from after every file operation of its checkpoints against spec/DurableTrace.tla; kills, faults and interleavings from spec/Durable.tla',
               'Every system call of first and later checkpoints of every member kind, all ways of coming to save; interleavings of two and three members sampled. Process kills only, no loss of power.')
INFO['C23'] = ('TLA+ behaviours with exact states generated with TLC (spec/Leap.tla), replayed in the real moves',
               'All integer trajectories of 1-3 steps in one dimension over boxes, starts, momenta, masses, forces, potentials and contours, samples in two, longer ones of 8 and 15 steps; choice of the state and momenta through frequencies (6 sigma).')
INFO['C24'] = ('TLA+ behaviours with exact autocorrelations and rank statistics generated with TLC (spec/Adapt.tla, spec/Ranks.tla), replayed in the real functions; tuning of the real samplers validated against spec/TuneTrace.tla',
               'All series up to length 5 over four values and listed ones up to length 100, all short sequences of insertion indices and random longer ones; chains of the Hamiltonian and slice samplers on a few models; rates of kept rows through frequencies (6 sigma).')
NOT_CLAIMED = {}


def run(prop):
    import common
    mods = [m for m, ps in WHERE.items() if prop in ps]
    chk = common.Check(prop)
    if set(mods) & SIMULATED:
        importlib.import_module('nsrun').prepare()         # the simulated operating system comes before cpnest
    for m in mods:
        importlib.import_module(m).CHECKS[prop](chk)
    return chk.finish()
