"""One life of a run with real processes: python -c 'import realrun; realrun.main()' job.json (in an interpreter of its own, in a session of its own)

job: out, notes (a folder), n, h, s, nlive, seed, mode, verbose, maxmcmc, tol. Writes notes/members.json when the fleet is built, notes/<pid>.txt with what
the generators of each sampler process yield, notes/end.json at the end of the run."""
import json, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot
boot.install()
import numpy as np
import random
import cpnest, cpnest.proposal as P
from models import Gauss2, MODELS
boot.quiet()
JOB = json.load(open(sys.argv[1]))
MAIN = os.getpid()
count = [0]


def note(kind, *xs):
    if os.getpid() != MAIN and count[0] < 40:
        count[0] += 1
        with open(os.path.join(JOB['notes'], '%d.txt' % os.getpid()), 'a') as f:
            f.write(kind + ' ' + ' '.join(repr(float(x)) for x in xs) + '\n')


def noted(base):
    class Noted(base):
        def get_sample(self, *a, **k):
            note('v', np.random.random(), random.random())
            return super().get_sample(*a, **k)

        def get_direction(self, *a, **k):
            note('v', np.random.random(), random.random())
            return super().get_direction(*a, **k)
    Noted.__name__ = Noted.__qualname__ = 'Noted' + base.__name__
    globals()[Noted.__name__] = Noted
    return Noted


CL = {'mhs': noted(P.DefaultProposalCycle), 'hmc': noted(P.HamiltonianProposalCycle), 'sli': noted(P.EnsembleSliceProposalCycle)}


class RealModel(MODELS[JOB.get('model', 'Gauss2')]):
    def new_point(self):
        p = super().new_point()
        note('pt', *p.values)
        return p


def main():
    from fleet_checks import kind_of, pool_of, tree
    cp = cpnest.CPNest(RealModel(), nlive=JOB['nlive'], poolsize=JOB['poolsize'], output=JOB['out'], verbose=JOB.get('verbose', 0), seed=JOB['cseed'], maxmcmc=JOB['maxmcmc'],
                       nthreads=JOB['n'], nhamiltonian=JOB['h'], nslice=JOB['s'], resume=True, proposals=dict(CL))
    cp.NS.tolerance = JOB['tol']
    ids = {}
    tok = lambda x: ids.setdefault(x, len(ids) + 1)
    chans = [tok(c.fileno()) for c in cp.manager.consumer_pipes]
    pair = {id(p): tok(c.fileno()) for c, p in zip(cp.manager.consumer_pipes, cp.manager.producer_pipes)}
    mem = []
    for i, q in enumerate(cp.process_pool):
        t = q._target
        o = next(x for x in [getattr(t, '__self__', None)] + list(q._args) + list(q._kwargs.values()) if hasattr(x, 'produce_sample'))
        mem.append({'a': 'Member', 'i': i + 1, 'kind': kind_of(o), 'chan': pair.get(id(o.producer_pipe), 0), 'file': os.path.realpath(o.resume_file), 'seed': int(o.seed),
                    'props': sorted(tok(('obj', x)) for x in tree(o.proposal)), 'pkind': next((k for k, c in CL.items() if isinstance(o.proposal, c)), 'none'),
                    'new': not o.initialised, 'pool': pool_of(o) if o.initialised else []})
    f = os.path.join(JOB['notes'], 'members.json')
    with open(f + '.t', 'w') as h:
        json.dump({'chans': chans, 'mem': mem, 'it': cp.NS.iteration, 'pid': MAIN}, h)
    os.rename(f + '.t', f)
    how = 'return'
    try:
        cp.run()
    except SystemExit as e:
        how = e.code
    f = os.path.join(JOB['notes'], 'end.json')
    for q in cp.process_pool:
        if how != 'return' and q.pid:
            q.join(60)
    with open(f + '.t', 'w') as h:
        json.dump({'how': how, 'pids': [q.pid for q in cp.process_pool], 'codes': [q.exitcode for q in cp.process_pool], 'it': cp.NS.iteration, 'ns': len(cp.NS.nested_samples)}, h)
    os.rename(f + '.t', f)
    sys.exit(0 if how == 'return' else how)

