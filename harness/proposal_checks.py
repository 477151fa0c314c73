"""Proposal cycles and single moves of the real code, recorded for spec/CycleTrace.tla and spec/Moves.tla"""
import array, collections, itertools, math, os, random, shutil, tempfile
import boot, common
from common import cfg_file, generate, rng, tier
from unit_checks import together


def prepare():
    boot.install()
    import cpnest, cpnest.proposal, cpnest.model, cpnest.parameter
    boot.quiet()


def mk(v, names=None):
    from cpnest.parameter import LivePoint
    return LivePoint(names or ['x%d' % i for i in range(len(v))], d=array.array('d', [float(x) for x in v]))


def crash(ev, fn):
    try:
        fn()
    except Exception as e:
        import traceback
        ev.append({'a': 'Crash', 'why': '%s: %s' % (type(e).__name__, str(e)[:200]), 'tb': traceback.format_exc()[-1200:]})
    return ev


# ------------------------------------------------------------------------------------------------- the cycles

class Ensembles:
    """Ensembles with contents of their own; which one does a move hold?"""
    def __init__(self, dim=2, n=6, k=4, r=None):
        r = r or random.Random(1)
        self.e = {j: [mk([r.uniform(-1, 1) + 10 * j for _ in range(dim)]) for _ in range(n)] for j in range(1, k)}

    def which(self, x):
        if x is None:
            return 0
        try:
            v = [list(p.values) for p in x]
        except Exception:
            return -1
        for j, e in self.e.items():
            if [list(p.values) for p in e] == v:
                return j
        return -1


def tree(job, path, ens, jac, log):
    """real cycles over moves that only record"""
    import cpnest.proposal as P

    def ret(i, old):
        jac[0] += 1
        out = old.copy()
        log['ret'] = out
        return out

    class Mv(P.Proposal):
        def __init__(self, i):
            self.i = i

        def get_sample(self, old, **kw):
            path.append(self.i)
            out = ret(self.i, old)
            self.log_J = float(jac[0])
            log['j'], log['seen'] = self.log_J, ens.which(getattr(self, 'ensemble', None))
            return out

    class En(Mv, P.EnsembleProposal):
        pass

    class Cy(P.ProposalCycle):
        i = None

        def get_sample(self, old, **kw):
            path.append(self.i)
            return super().get_sample(old, **kw)
    nodes = job['nodes']
    obj = [None] * len(nodes)

    def make(i):
        if obj[i - 1] is None:
            n = nodes[i - 1]
            if n['k'] == 'cycle':
                ks = [make(k) for k in n['kids']]
                w = [g * job['scale'] for g in n['given']]
                obj[i - 1] = Cy(ks, w, cyclelength=n['len'])
                obj[i - 1].i = i
            else:
                obj[i - 1] = (En if n['k'] == 'ens' else Mv)(i)
        return obj[i - 1]
    for i in range(1, len(nodes) + 1):
        make(i)
    return obj


def cycle_run(job):
    import numpy as np
    np.random.seed(job['seed'] % 2 ** 32)
    random.seed(job['seed'])
    path, jac, log, ev = [], [0], {}, []
    ens = Ensembles()
    old = mk([0.25, -1.0])
    n0 = [len(n['kids']) for n in job['nodes']]

    def go():
        obj = tree(job, path, ens, jac, log)

        def weights(i):
            ev.append({'a': 'Wts', 'c': i, 'n0': n0[i - 1], 'w': [int(round(float(x) * 1e6)) for x in obj[i - 1].weights]})
        for i, n in enumerate(job['nodes']):
            if n['k'] == 'cycle':
                weights(i + 1)
        for op in job['ops']:
            if op['o'] == 'prop':
                # more often than there are members in the cycle: everything comes round
                for _ in range(job['rounds']):
                    del path[:]
                    log.clear()
                    out = obj[0].get_sample(old.copy())
                    ev.append({'a': 'Prop', 'c': 1, 'path': list(path), 'ret': out is log.get('ret') or list(out.values) == list(log['ret'].values),
                               'j': int(round(obj[0].log_J)), 'jm': int(log.get('j', -1)), 'seen': log.get('seen', -1)})
            elif op['o'] == 'ens':
                obj[0].set_ensemble(ens.e[op['e']])
                ev.append({'a': 'Ens', 'c': 1, 'e': op['e']})
            else:
                obj[op['c'] - 1].add_proposal(obj[op['n'] - 1], op['w'] * job['scale'])
                x = op['w'] * job['scale']
                ev.append({'a': 'Add', 'c': op['c'], 'n': op['n'], 'w': op['w'], 'wm': int(round(x * 1e6)) if x <= 20 else -1})
                weights(op['c'])
    crash(ev, go)
    return {'cfg': {'nodes': job['nodes']}, 'ev': ev, 'name': 'cycle-%d' % job['no']}


def flat(w, n):
    return [{'k': 'cycle', 'kids': list(range(2, len(w) + 2)), 'given': w, 'len': n}] + [{'k': 'ens', 'kids': [], 'given': [], 'len': 0} for _ in w]


def freq_run(job):
    """One long cycle: its members appear as often as their weights say"""
    import numpy as np
    np.random.seed(job['seed'] % 2 ** 32)
    nodes, ev, n = flat(job['w'], job['n']), [], job['n']

    def go():
        path, jac, log = [], [0], {}
        obj = tree({'nodes': nodes, 'scale': job['scale']}, path, Ensembles(), jac, log)
        old, cnt = mk([0.0]), [0] * len(job['w'])
        for _ in range(n):
            del path[:]
            obj[0].get_sample(old)
            cnt[path[-1] - 2] += 1
        for k, w in zip(cnt, job['w']):
            p = w / sum(job['w'])
            sd = math.sqrt(n * p * (1 - p))
            ev.append({'a': 'Freq', 'k': k, 'lo': int(math.floor(n * p - 6 * sd)), 'hi': int(math.ceil(n * p + 6 * sd))})
    crash(ev, go)
    return {'cfg': {'nodes': nodes}, 'ev': ev, 'name': 'cycle-frequency-%s' % job['w']}


def rel(a, b):
    import numpy as np
    a, b = np.atleast_1d(np.asarray(a, float)), np.atleast_1d(np.asarray(b, float))
    if a.shape != b.shape:
        return 10 ** 9
    d = float(np.max(np.abs(a - b)) / max(float(np.max(np.abs(b))), 1e-300))
    return 10 ** 9 if not d < 1 else int(round(d * 1e9))


def real_cycle(job):
    """The package's own cycles: which move is used, with which Jacobian and ensemble, and what is derived from the ensemble"""
    import numpy as np
    import cpnest.proposal as P
    import chain_checks, models
    np.random.seed(job['seed'] % 2 ** 32)
    random.seed(job['seed'])
    m = models.MODELS[{1: 'Gauss1', 2: 'Prior', 3: 'Gauss3'}[job['dim']]]()
    r = random.Random(job['seed'])
    ens = Ensembles(job['dim'], 30, 4, r)
    for j in ens.e:
        ens.e[j] = []
        while len(ens.e[j]) < 30:
            p = m.new_point()
            p.logP, p.logL = m.log_prior(p), m.log_likelihood(p)
            ens.e[j].append(p)
        if job['seed'] % 2:
            ens.e[j] = collections.deque(ens.e[j], maxlen=30)
    spread = lambda p: m.in_bounds(p) and math.isfinite(p.logP)

    def change(E):
        """other points in the same container, some of them in the same objects"""
        for i in range(len(E)):
            if r.random() < 0.7:
                p = m.new_point()
                if r.random() < 0.5:
                    f = r.choice([0.3, 0.1])               # closer together than before
                    p = E[0] * (1 - f) + p * f
                p.logP, p.logL = m.log_prior(p), m.log_likelihood(p)
                if not spread(p):
                    continue
                if r.random() < 0.5:
                    E[i] = p
                else:
                    for n in p.names:
                        E[i][n] = p[n]
                    E[i].logP, E[i].logL = p.logP, p.logL
    ev, path, log = [], [], {}
    kind = job['kind']
    c = {'default': P.DefaultProposalCycle, 'slice': P.EnsembleSliceProposalCycle, 'hmc': lambda: P.HamiltonianProposalCycle(model=m)}[kind]()
    verb = 'get_direction' if kind == 'slice' else 'get_sample'
    given = {'default': [5, 5, 10, 10], 'slice': [1, 1, 1], 'hmc': [1]}[kind]
    members = list(c.proposals)
    spare = [P.EnsembleWalk(), P.EnsembleStretch(), P.EnsembleEigenVector()] if kind == 'default' else []
    nodes = [{'k': 'cycle', 'kids': list(range(2, len(members) + 2)), 'given': given, 'len': len(c.cycle)}]
    nodes += [{'k': 'ens', 'kids': [], 'given': [], 'len': 0} for _ in members + spare]

    def spy(mv, i):
        f = getattr(mv, verb)

        def w(*a, **k):
            path.append(i)
            seen = ens.which(mv.ensemble)
            out = f(*a, **k)
            log.update(ret=out, j=float(mv.log_J), seen=seen)
            return out
        setattr(mv, verb, w)
    for i, mv in enumerate(members + spare):
        spy(mv, i + 2)

    def derived(mv, e):
        E = ens.e[e]
        X = np.array([list(p.values) for p in E]).T
        cov = np.atleast_2d(np.var(X[0]) if job['dim'] == 1 else np.cov(X))
        dev = [0]
        if hasattr(mv, 'covariance') and mv.covariance is not None:
            dev.append(rel(np.atleast_2d(mv.covariance) if job['dim'] == 1 else mv.covariance, cov))
        if getattr(mv, 'mean', None) is not None:
            dev.append(rel(mv.mean, X.mean(axis=1)))
        if getattr(mv, 'eigen_vectors', None) is not None:
            V, lam = np.asarray(mv.eigen_vectors), np.asarray(mv.eigen_values)
            dev.append(rel(cov @ V, V * lam) if np.any(lam) else 0)
            dev.append(rel(V.T @ V, np.eye(job['dim'])))
        if getattr(mv, 'inverse_mass_matrix', None) is not None:
            dev.append(rel(mv.inverse_mass_matrix, cov))
            dev.append(rel(np.asarray(mv.mass_matrix) @ cov, np.eye(job['dim'])))
            dev.append(rel(mv.inverse_mass, np.diag(cov)))
            dev.append(rel(mv.momenta_distribution.cov, mv.mass_matrix))
        return max(dev)

    def go():
        ws = lambda: ev.append({'a': 'Wts', 'c': 1, 'n0': len(members), 'w': [int(round(float(x) * 1e6)) for x in c.weights]})
        ws()
        inn = list(members)
        cur = None
        todo = list(spare)
        for k in range(job['steps']):
            if cur is None or r.random() < 0.08:
                if cur is not None and r.random() < 0.5:
                    change(ens.e[cur])                     # the sampler's pool: the same container with other points in it
                else:
                    cur = r.choice([1, 2, 3])
                c.set_ensemble(ens.e[cur])
                ev.append({'a': 'Ens', 'c': 1, 'e': cur})
                for mv in inn:
                    ev.append({'a': 'Derived', 'dev': derived(mv, cur)})
            if todo and r.random() < 0.02:
                mv = todo.pop()
                c.add_proposal(mv, 7.0)
                ev.append({'a': 'Add', 'c': 1, 'n': 2 + (members + spare).index(mv), 'w': 7, 'wm': 7000000})
                inn.append(mv)
                ws()
                c.set_ensemble(ens.e[cur])
                ev.append({'a': 'Ens', 'c': 1, 'e': cur})
            del path[:]
            log.clear()
            old = r.choice(ens.e[cur]).copy()
            if kind == 'slice':
                out = c.get_direction(mu=1.0)
            elif kind == 'hmc':
                out = c.get_sample(old, logLmin=-1e9)
            else:
                out = c.get_sample(old)
            same = out is log.get('ret') or list(out) == list(log['ret']) if kind == 'slice' and not hasattr(out, 'values') else list(out.values) == list(log['ret'].values)
            ev.append({'a': 'Prop', 'c': 1, 'path': [1] + list(path), 'ret': bool(same), 'j': int(c.log_J != log['j']), 'jm': 0, 'seen': log['seen']})
    crash(ev, go)
    return {'cfg': {'nodes': nodes}, 'ev': ev, 'name': 'cycle-%s-%d' % (kind, job['seed'])}


def cyc_cfg(shapes, weights, lens, ops, defects=(), emit=True):
    q = lambda xs: ', '.join('"%s"' % x for x in xs)
    return cfg_file('CONSTANTS Shapes = {%s} Weights = {%s} Lens = {%s} MaxOps = %d Defects = {%s}\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
                    'INVARIANT Allowed %s\n' % (q(shapes), ', '.join(map(str, weights)), ', '.join(map(str, lens)), ops, q(defects), 'Emit' if emit else ''))


SHAPES = ('flat2', 'flat4', 'nested', 'deep', 'addcycle')


def run_all(chk, module, fn, jobs, prop):
    ts, lost = [], 0
    for j, (st, t) in zip(jobs, common.parallel(fn, jobs, timeout=200)):
        if st == 'timeout' and lost < len(jobs) // 50:
            lost += 1               # no verdict on this one
            chk.cov['scenarios_cut_by_the_clock'] = lost
            continue
        if st != 'ok':
            raise common.MachineryError('%s: %s %s' % (module, st, t))
        ts.append(t)
    chk.traces(module, ts, [prop])


def c14(chk):
    prepare()
    chk.model(common.tlc('Cycle', cyc_cfg(SHAPES[:3], (0, 2), (1, 2), tier(2, 3), emit=False)), 'Cycle, exhaustively')
    for d in ('stalej', 'shallow', 'zero'):
        common.tlc('Cycle', cyc_cfg(('nested',), (0, 2), (2,), 3, (d,), False), ok_rc=(12,))
    bs = together([lambda s=s: generate('Cycle', cyc_cfg((s,), (0, 1, 3) if s == 'flat2' else (0, 2), (1, 3) if s != 'flat4' else (2,), 10),
                                        simulate=tier(60, 1000), depth=13, seeds=2, tag=s) for s in SHAPES])
    r = rng('C14')
    jobs = [{'nodes': b['nodes'], 'ops': b['ops'], 'seed': r.randrange(2 ** 31), 'no': k, 'scale': r.choice([1, 1.0, 0.01, 12.5]), 'rounds': r.choice([1, 2, 7])}
            for k, b in enumerate(bs)]
    run_all(chk, 'CycleTrace', cycle_run, jobs, 'C14')
    jobs = [{'w': w, 'n': tier(20000, 200000), 'scale': sc, 'seed': r.randrange(2 ** 31)} for w in ([1, 1], [5, 5, 10, 10], [1, 0, 3], [1, 2, 3, 4, 0]) for sc in (1, 0.3)]
    run_all(chk, 'CycleTrace', freq_run, jobs, 'C14')
    jobs = [{'kind': k, 'dim': d, 'steps': tier(350, 2500) if k != 'hmc' else tier(60, 400), 'seed': r.randrange(2 ** 31)}
            for k in ('default', 'slice', 'hmc') for d in (1, 2, 3) for _ in range(tier(3, 12))]
    run_all(chk, 'CycleTrace', real_cycle, jobs, 'C14')


# -------------------------------------------------------------------------------------------------- the moves

def cap(x, unit):
    x = float(x)
    return 10 ** 9 if not x * unit < 1e9 else int(round(x * unit))


def measure(kind, E, old, out, J, mv, mu=1.0):
    """E, old, out: arrays. How far is the step from one that used this member, pair or triple?"""
    import numpy as np
    scale = max(1e-300, float(np.max(np.abs(E))), float(np.max(np.abs(old))), float(np.max(np.abs(out))))
    n, dim = E.shape
    if kind == 'stretch':
        fit = []
        for a in E:
            d = old - a
            dd = float(d @ d)
            at = dd <= (1e-12 * scale) ** 2
            z = 1.0 if at else float((out - a) @ d) / dd
            r = float(np.linalg.norm(out - a - z * d)) / scale
            fit.append({'r': cap(r, 1e9), 'z': cap(max(z, -1.0), 1e6), 'at': bool(at),
                        'jd': cap(abs(J - dim * math.log(z)) if z > 0 else INF, 1e6)})
        return {'fit': fit}
    if kind in ('de', 'slicede'):
        s = out - old if kind == 'de' else out
        fit = []
        for i, j in itertools.permutations(range(n), 2):
            d = (E[j] - E[i]) * (mu if kind == 'slicede' else 1.0)
            dd = float(d @ d)
            g = float(s @ d) / dd if dd > (1e-12 * scale) ** 2 else 1.0
            fit.append({'r': cap(np.linalg.norm(s - g * d) / scale, 1e9), 'w': cap(abs(g - 1), 1e6)})
        return {'fit': fit, 'j': cap(abs(J), 1e9)}
    if kind == 'eigen':
        s = out - old
        cov = np.atleast_2d(np.var(E[:, 0]) if dim == 1 else np.cov(E.T))
        ns, nc = float(np.linalg.norm(s)), float(np.linalg.norm(cov))
        # rounding of old + s leaves s uncertain by about 1e-16 of the coordinates
        if ns <= 1e-7 * scale or nc == 0:
            return {'res': 0 if ns <= 1e-7 * scale else 10 ** 9, 'j': cap(abs(J), 1e9)}
        lam = float(s @ cov @ s) / ns ** 2
        return {'res': cap(np.linalg.norm(cov @ s - lam * s) / (nc * ns), 1e9), 'j': cap(abs(J), 1e9)}
    if kind == 'walk':
        s, fit = out - old, []
        for t in itertools.combinations(range(n), 3):
            D = E[list(t)] - E[list(t)].mean(axis=0)
            U, sv, Vt = np.linalg.svd(D, full_matrices=False)
            V = Vt[sv > 1e-9 * max(1e-300, sv[0])] if sv[0] > 1e-12 * scale else Vt[:0]
            fit.append(cap(np.linalg.norm(s - V.T @ (V @ s)) / scale, 1e9))
        return {'fit': fit, 'j': cap(abs(J), 1e9)}
    if kind == 'sliceg':
        return {'res': cap(abs(np.linalg.norm(out) / mu - 1), 1e9)}
    return {}


INF = math.inf


def on_a_pair(E, s):
    """No step, or one along the line of two members only"""
    import numpy as np
    if not np.any(s):
        return True
    for i, j in itertools.combinations(range(len(E)), 2):
        d = E[i] - E[j]
        if np.linalg.norm(s - d * float(s @ d) / float(d @ d)) <= 1e-6 * np.linalg.norm(s):
            return True
    return False


def move_run(job):
    import numpy as np
    from collections import deque
    import cpnest.proposal as P
    np.random.seed(job['seed'] % 2 ** 32)
    random.seed(job['seed'])
    K = {'stretch': P.EnsembleStretch, 'de': P.DifferentialEvolution, 'eigen': P.EnsembleEigenVector, 'walk': P.EnsembleWalk,
         'slicede': P.EnsembleSliceDifferential, 'sliceg': P.EnsembleSliceGaussian, 'any': P.EnsembleSliceCorrelatedGaussian}
    ev = []

    def go():
        for case in job['cases']:
            for kind, cl in K.items():
                if kind == 'walk' and len(case['e']) < 3:
                    continue
                mv = cl()
                for cont in (list, lambda x: deque(x, maxlen=len(x))):
                    pts = cont([mk([v * case['s'] for v in p]) for p in case['e']])
                    if case.get('drop'):
                        mv.set_ensemble([mk([v + 7.0 for v in p.values]) for p in pts])        # another ensemble before
                    mv.set_ensemble(pts)
                    ids = [id(p) for p in pts]
                    E = np.array([list(p.values) for p in pts])
                    meta = [(list(p.values), p.logL, p.logP) for p in pts]
                    for k in range(case['draws']):
                        old = mk([v * case['s'] for v in case['old']])
                        if case['member'] is not None and kind in ('stretch', 'de', 'walk', 'eigen'):
                            old = pts[case['member'] % len(pts)].copy()
                        o = np.array(list(old.values))
                        mu = case['mu']
                        if kind in ('slicede', 'sliceg', 'any'):
                            out, J = mv.get_direction(mu=mu), 0.0
                            names = ['x%d' % i for i in range(len(o))]
                            shape = (list(out.names) == names) if hasattr(out, 'names') else len(out) == len(o)
                            v = np.array(list(out.values) if hasattr(out, 'values') else list(out))
                        else:
                            out = mv.get_sample(old)
                            J = float(mv.log_J)
                            shape = list(out.names) == list(old.names) and len(out.values) == len(o)
                            v = np.array(list(out.values))
                        same = [id(p) for p in pts] == ids and meta == [(list(p.values), p.logL, p.logP) for p in pts] and not any(out is p for p in pts)
                        e = {'a': kind, 'same': bool(same), 'shape': bool(shape)}
                        if shape:
                            e.update(measure(kind, E, o, v, J, mv, mu))
                            if kind == 'walk' and case.get('generic') and len(o) > 1:
                                few[1] += 1
                                few[0] += on_a_pair(E, v - o)
                        ev.append(e)
    few = [0, 0]
    crash(ev, go)
    ev.append({'a': 'few', 'k': few[0], 'n': few[1]})
    return {'cfg': {}, 'ev': ev, 'name': 'moves-%d' % job['no']}


def grid_cases(dim, size, grid, simulate=None):
    d = tempfile.mkdtemp(prefix='mv-')
    try:
        with open(os.path.join(d, 'MCMoves.tla'), 'w') as f:
            f.write('---- MODULE MCMoves ----\nEXTENDS MovesGen\nMCG == {%s}\n====\n' % ', '.join(map(str, grid)))
        cfg = cfg_file('CONSTANTS Dim = %d Size = %d Grid <- MCG\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT OnLine Emit\n' % (dim, size))
        return generate(os.path.join(d, 'MCMoves'), cfg, simulate=simulate, depth=3, seeds=1, tag='%d-%d' % (dim, size))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c15(chk):
    prepare()
    r = rng('C15')
    cs = together([lambda: grid_cases(1, 3, (-2, 0, 1)), lambda: grid_cases(1, 4, (0, 3)), lambda: grid_cases(2, 3, (0, 2)),
                   lambda: r.sample(grid_cases(3, 3, (0, 1)), tier(300, 2000)), lambda: r.sample(grid_cases(2, 3, (-3, 0, 1)), tier(300, 4000))])
    cases = [dict(c, s=r.choice([1.0, 1.0, 1e-6, 1e5]), draws=2, member=r.choice([None, None, 0, 1]), mu=r.choice([1.0, 0.3, 4.0]), drop=r.random() < 0.3) for c in cs]
    chk.cov['grid_ensembles'] = len(cases)
    for k in range(tier(500, 6000)):             # generic positions, up to 6 dimensions
        dim = r.choice([1, 2, 2, 3, 4, 5, 6])
        n = r.choice([3, 4, 6, 8])
        sc = [r.choice([1.0, 1.0, 0.01, 30.0]) for _ in range(dim)]
        off = [r.choice([0.0, 0.0, -3.0]) for _ in range(dim)]
        pt = lambda: [r.gauss(0, 1) * a + b for a, b in zip(sc, off)]
        cases.append({'e': [pt() for _ in range(n)], 'old': pt(), 's': 1.0, 'generic': True, 'draws': 3, 'member': r.choice([None, None, 0, 2]),
                      'mu': r.choice([1.0, 0.25, 3.0]), 'drop': r.random() < 0.3})
    r.shuffle(cases)
    jobs = [{'cases': c, 'seed': r.randrange(2 ** 31), 'no': k} for k, c in enumerate(cases[i:i + 12] for i in range(0, len(cases), 12))]
    run_all(chk, 'Moves', move_run, jobs, 'C15')
    chk.assumptions.append('geometry measured in floating point with relative tolerance 2e-8; positions from a small grid (all) and random ones')


CHECKS = {'C14': c14, 'C15': c15}
