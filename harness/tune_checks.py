"""How samplers tune themselves: behaviours of spec/Adapt.tla and spec/Ranks.tla in the real functions, tuning of real samplers for spec/TuneTrace.tla"""
import array, itertools, math, os, random, shutil, tempfile
import boot, common
from common import cfg_file, generate, rng, tier
from unit_checks import replay, together

INF = math.inf


def series(simple, more):
    return '(UNION {[1..n -> 0..%d] : n \\in 1..%d}) \\cup {%s}' % (simple[1], simple[0], ', '.join('<<%s>>' % ', '.join(map(str, x)) for x in more))


def acls(chk, name, simple, more, slips=(), emit=True):
    d = tempfile.mkdtemp(prefix='ad-')
    try:
        with open(os.path.join(d, 'MCAdapt.tla'), 'w') as f:
            f.write('---- MODULE MCAdapt ----\nEXTENDS Adapt\nMCS == %s\n====\n' % series(simple, more))
        cfg = cfg_file('CONSTANTS Series <- MCS Slips = {%s}\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Ends Still AtLeast Bounded Shift Small %s\n'
                       % (', '.join('"%s"' % x for x in slips), 'Emit' if emit else ''))
        if slips:
            return common.tlc(os.path.join(d, 'MCAdapt'), cfg, ok_rc=(12,))
        return generate(os.path.join(d, 'MCAdapt'), cfg, chk=chk, tag=name)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def ranks_cfg(n, length, slips=(), emit=True):
    return cfg_file('CONSTANTS N = %d Len0 = %d Slips = {%s}\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Range Sides Recent %s\n'
                    % (n, length, ', '.join('"%s"' % x for x in slips), 'Emit' if emit else ''))


def prepare():
    import chain_checks
    chain_checks.prepare()
    import cpnest.nest2pos, cpnest.NestedSampling


def length(b):
    return 1.0 if b['a0'] == 0 else 1 + 2 * b['sum'] / b['a0']


def acl_of(b):
    import numpy as np
    from cpnest.nest2pos import acl, autocorrelation
    want = length(b)
    with np.errstate(all='ignore'):
        for s, o in ((1.0, 0.0), (1e-3, 0.0), (3e4, 0.0), (-1.0, 5.0), (2.0, -40.0)):
            if b['a0'] == 0 and s not in (1.0, -1.0, 2.0):
                continue            # the mean of equal numbers may not be one of them in floating point
            x = np.array([v * s + o for v in b['x']])
            got = float(acl(x))
            if not abs(got - want) <= 1e-6 * want:
                return 'series times %g plus %g: length %r instead of %r' % (s, o, got, want)
    return None


def a_sampler(mx, **kw):
    import chain_checks, models
    m = models.MODELS[kw.pop('model', 'Gauss2')]()
    kind = kw.pop('kind', 'mh')
    if 'proposal' in kw and callable(kw['proposal']):
        kw['proposal'] = kw['proposal'](m)
    return chain_checks.sampler_class(kind)(m, mx, manager=chain_checks.Manager(), output='.', **kw)


def estimate(b):
    """the last 5 maxmcmc stored points, several coordinates; anything before them does not count"""
    import numpy as np
    from cpnest.parameter import LivePoint
    n = len(b['cols'][0]['x'])
    s = a_sampler(n // 5, poolsize=8)
    names = ['x%d' % i for i in range(len(b['cols']))]
    pts = [[10.0 * ((i // b['block']) % 2)] * len(names) for i in range(b['before'])]
    pts += [[c['x'][i] * 0.5 + 1 for c in b['cols']] for i in range(n)]
    s.samples = [LivePoint(list(names), d=array.array('d', v)) for v in pts]
    s.model.names = names
    s.evolution_points.extend(s.samples[-8:])
    T = max(length(c) for c in b['cols'])
    with np.errstate(all='ignore'):
        s.estimate_nmcmc()
    ok = {max(20, int(T * (1 + e))) for e in (-1e-9, 0, 1e-9)}
    if s.Nmcmc not in ok:
        return 'after series of length %r: chains of %r steps instead of %r' % (T, s.Nmcmc, sorted(ok))
    return None


def ranks(b):
    import numpy as np
    from scipy.stats import kstwo
    import chain_checks, models
    from cpnest.NestedSampling import NestedSampler
    d = tempfile.mkdtemp(prefix='cpv-rk-')
    try:
        ns = NestedSampler(models.MODELS['Gauss2'](), manager=chain_checks.Manager(), nlive=b['n'], output=d, seed=1, verbose=0)
        f = os.path.join(d, 'indices.dat')
        for i, v in enumerate(b['w']):
            ns.insertion_indices.append(v / b['n'])
            ns.check_insertion_indices()
            m = min(i + 1, b['n'])
            want = float(kstwo.sf(b['roll'][i] / (b['n'] * m), m))
            if len(ns.rolling_p) != i + 1:
                return 'after %d indices: %d rolling values' % (i + 1, len(ns.rolling_p))
            got = float(ns.rolling_p[-1])
            if not abs(got - want) <= 1e-7 * max(want, 1e-9) + 1e-12:
                return 'after %r of %d: rolling p %r instead of %r' % (b['w'][:i + 1], b['n'], got, want)
        was = list(ns.rolling_p)
        ns.check_insertion_indices(rolling=False, filename='indices.dat')
        if list(ns.rolling_p) != was:
            return 'the final check changed the rolling values'
        rows = np.atleast_1d(np.loadtxt(f)).tolist()
        if len(rows) != len(b['w']) or any(abs(x - v / b['n']) > 1e-12 for x, v in zip(rows, b['w'])):
            return 'indices %r saved as %r' % (b['w'], rows)
        if list(ns.insertion_indices) != [v / b['n'] for v in b['w']]:
            return 'the check changed the indices'
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return None


# ------------------------------------------------------------------------------------------------ recorded tuning

def crash(ev, fn):
    try:
        fn()
    except Exception as e:
        import traceback
        ev.append({'a': 'Crash', 'why': '%s: %s' % (type(e).__name__, str(e)[:200]), 'tb': traceback.format_exc()[-1200:]})
    return ev


def whole(x, unit, top=2 * 10 ** 9):
    x = float(x) * unit
    return top if not abs(x) < top else int(round(x))


def fly(job):
    """directly, and while the pool of a real sampler fills"""
    import numpy as np
    np.random.seed(job['seed'] % 2 ** 32)
    random.seed(job['seed'])
    r, ev = random.Random(job['seed']), []

    def call(s, f, k, n):
        x = float(s.Nmcmc_exact)
        out = f()
        ev.append({'a': 'fly', 'p': s.poolsize, 'k': k, 'n': n, 'mx': s.maxmcmc, 'x': whole(x, 1e3), 'y': whole(s.Nmcmc_exact, 1e3), 'N': int(s.Nmcmc)})
        return out

    def go():
        for _ in range(job['n']):
            s = a_sampler(r.choice([3, 7, 20, 60, 100]), poolsize=r.choice([4, 5, 8, 13, 25, 40]))
            for _ in range(6):
                n = r.choice([1, 2, 5, 12, 20])
                k = r.choice([0, 1, n, r.randrange(n + 1)])
                s.sub_acceptance = k / n
                if r.random() < 0.5:
                    s.Nmcmc_exact = round(r.uniform(1, s.maxmcmc), 3)
                call(s, s.estimate_nmcmc_on_the_fly, min(k, n), n)
        s = a_sampler(r.choice([6, 15]), poolsize=r.choice([6, 12]), model=job['model'], seed=job['seed'] % 2 ** 31)
        f, was = s.estimate_nmcmc_on_the_fly, [0, 0]

        def spy(*a, **k):
            acc, cnt = s.mcmc_accepted - was[0], s.mcmc_counter - was[1]
            was[:] = s.mcmc_accepted, s.mcmc_counter
            if a or k or cnt <= 0:
                return f(*a, **k)
            return call(s, f, acc, cnt)
        s.estimate_nmcmc_on_the_fly = spy
        s.reset()
    return {'cfg': {}, 'ev': crash(ev, go), 'name': 'chain-lengths-%d' % job['no']}


def chains(job):
    """real chains of the samplers that adapt their moves"""
    import numpy as np
    import cpnest.proposal as P
    np.random.seed(job['seed'] % 2 ** 32)
    random.seed(job['seed'])
    r, ev = random.Random(job['seed']), []
    kind = job['kind']
    prop = {'hmc': lambda m: P.HamiltonianProposalCycle(model=m), 'slice': lambda m: P.EnsembleSliceProposalCycle()}[kind]
    s = a_sampler(job['mx'], poolsize=job['pool'], model=job['model'], kind=kind, proposal=prop, seed=job['seed'] % 2 ** 31)

    def has(o, *names):
        # a rewritten class may keep these elsewhere: then there is nothing to compare
        return all(hasattr(o, n) for n in names)

    def hmc(thr):
        if not all(has(p, 'scale', 'dt', 'base_dt', 'L', 'base_L') for p in s.proposal.proposals):
            next(s.yield_sample(thr))
            return
        old = [float(p.scale) for p in s.proposal.proposals]
        N = int(s.Nmcmc)
        next(s.yield_sample(thr))
        ps = list(s.proposal.proposals)
        for p, o in zip(ps, old):
            ev.append({'a': 'hmc', 'acc': whole(s.acceptance, 1e6), 'g': whole(math.log(float(p.scale) / o), 1e9), 'N': N, 'extra': int(p.L - p.base_L),
                       'dt': whole(abs(float(p.dt) / (float(p.base_dt) * float(p.scale)) - 1), 1e9),
                       'moves': bool(max(float(q.scale) for q in ps) == min(float(q.scale) for q in ps))})

    draws = []             # the intervals from which candidates were drawn since the last direction

    def slc(thr):
        mu = float(getattr(s, 'mu', 1.0))
        del draws[:]
        next(s.yield_sample(thr))
        if not has(s, 'Ne', 'Nc', 'mu'):
            return
        e = {'a': 'slice', 'ne': int(s.Ne), 'nc': int(s.Nc), 'm': whole(float(s.mu) / mu, 1e6), 'cnt': int(s.mcmc_counter), 'p': int(s.poolsize), 'seen': bool(draws), 'out': 0, 'cand': 0}
        if draws:
            e['out'], e['cand'] = int(round(draws[0][1] - draws[0][0])) - 1, len(draws)
        ev.append(e)
    if kind == 'slice':
        un, gd = np.random.uniform, s.proposal.get_direction

        def uniform(*a, **k):
            x = un(*a, **k)
            if len(a) == 2 and not k and (float(a[0]), float(a[1])) != (0.0, 1.0):
                draws.append((float(a[0]), float(a[1])))
            return x

        def get_direction(*a, **k):
            d = gd(*a, **k)
            del draws[:]
            return d
        np.random.uniform, s.proposal.get_direction = uniform, get_direction

    def go():
        s.reset()
        thr = -INF
        if kind == 'hmc':                                # as after a long run
            for p in s.proposal.proposals:
                p.scale = job['scale']
        elif job['tight']:
            s.max_slices = job['tight']
        for k in range(job['n']):
            Ls = sorted(p.logL for p in s.evolution_points if p.logL == p.logL)
            if Ls and r.random() < 0.3:
                thr = max(thr, Ls[min(len(Ls) - 1, int(len(Ls) * r.choice([0.1, 0.3])))])
            s.logLmin.value = thr
            # points at or below the threshold leave the pool as in a run: they are replaced by copies of better ones
            pts = list(s.evolution_points)
            good = [x for x in pts if x.logL > thr]
            if good and len(pts) < s.poolsize:
                s.evolution_points.append(r.choice(good).copy())
            s.Nmcmc = r.choice([1, 2, 5, job['mx']])
            (hmc if kind == 'hmc' else slc)(thr)
            if k % 5 == 4:
                s.proposal.set_ensemble(s.evolution_points)
    return {'cfg': {}, 'ev': crash(ev, go), 'name': '%s-tuning-%s-%d' % (kind, job['model'], job['no'])}


def table(cols, logpost):
    """a chain as it is read from a file: parameters, likelihood and prior; the prior numbers the rows"""
    import numpy as np
    n = len(cols[0])
    a = np.zeros(n, dtype=[('p%d' % i, 'f8') for i in range(len(cols))] + [('logL', 'f8'), ('logPrior', 'f8')])
    for i, c in enumerate(cols):
        a['p%d' % i] = c
    a['logPrior'] = np.arange(n)
    a['logL'] = np.array(logpost) - a['logPrior']
    return a


def thin(job):
    import numpy as np
    from cpnest.nest2pos import resample_mcmc_chain
    np.random.seed(job['seed'] % 2 ** 32)
    random.seed(job['seed'])
    ev = []

    def go():
        for case in job['cases']:
            m = len(case['cols'][0]['x'])
            T = max(length(c) for c in case['cols'])
            l = int(round(T))
            if abs(T - l) > 0.499:
                continue
            lp = [0.0] * m if case['flat'] else [case['amp'] * v for v in case['lp']]
            a = table([[v * 0.25 - 1 for v in c['x']] for c in case['cols']], lp)
            b = a.copy()
            with np.errstate(all='ignore'):
                out = resample_mcmc_chain(a)
            rows, same = [], True
            for row in out:
                i = float(row['logPrior'])
                k = int(i) if i == int(i) and 0 <= i < m else -1
                rows.append(k)
                same = same and k >= 0 and row.tolist() == b[k].tolist()
            ev.append({'a': 'thin', 'm': m, 'l': l, 'rows': rows, 'flat': bool(case['flat']), 'same': bool(same)})
    return {'cfg': {}, 'ev': crash(ev, go), 'name': 'thinning-%d' % job['no']}


def rate(job):
    """a few rows, many times: how often each of them stays"""
    import numpy as np
    from cpnest.nest2pos import resample_mcmc_chain
    np.random.seed(job['seed'] % 2 ** 32)
    random.seed(job['seed'])
    ev, n = [], job['n']
    lp = job['lp']
    K = len(lp)

    def go():
        # constant parameters: a chain without memory, every row stays in the thinned chain
        a = table([[1.0] * K], lp)
        cnt, whole_ = [0] * K, 0
        with np.errstate(all='ignore'):
            for _ in range(n):
                out = resample_mcmc_chain(a.copy())
                whole_ += len(out) == K
                for row in out:
                    cnt[int(row['logPrior'])] += 1
        ps = [1 / K + (1 - 1 / K) * sum(math.exp(min(0.0, lp[i] - lp[j])) for j in range(K) if j != i) / (K - 1) for i in range(K)]
        perms = list(itertools.permutations(lp))                  # each row is compared with the one before it
        ps.append(sum(math.prod(math.exp(min(0.0, y - x)) for x, y in zip(q, q[1:])) for q in perms) / len(perms))
        for k, p in zip(cnt + [whole_], ps):
            sd = math.sqrt(n * p * (1 - p))
            ev.append({'a': 'freq', 'k': k, 'lo': int(math.floor(n * p - 6 * sd - 1)), 'hi': int(math.ceil(n * p + 6 * sd + 1))})
    return {'cfg': {}, 'ev': crash(ev, go), 'name': 'kept-%s' % lp}


def longer(r, k):
    """series with a memory: blocks, walks, waves"""
    out = []
    for _ in range(k):
        n = r.choice([10, 20, 25, 30, 40, 60, 100])
        kind = r.randrange(4)
        if kind == 0 or n == 100:
            b = r.choice([2, 3, 5, 10, 20, 50])
            x = [(i // b) % 2 for i in range(n)]
        elif kind == 1:
            x, v = [], 4
            for _ in range(n):
                v = min(9, max(0, v + r.choice([-1, 0, 1])))
                x.append(v)
        elif kind == 2:
            p = r.choice([6, 9, 17, 30])
            x = [int(round(4 + 4 * math.sin(2 * math.pi * i / p))) for i in range(n)]
        else:
            x = [r.randrange(6) for _ in range(n)]
        out.append(tuple(x))
    return sorted(set(out))


def c24(chk):
    prepare()
    from proposal_checks import run_all
    r = rng('C24')
    more = longer(r, tier(220, 1500))
    jobs = [lambda: acls(chk, 'short', (tier(5, 6), tier(3, 3)), []), lambda: acls(chk, 'long', (1, 1), more),
            lambda: acls(chk, 's1', (4, 2), [], ('mean',)) and [], lambda: acls(chk, 's2', (4, 2), [], ('lag',)) and [], lambda: acls(chk, 's3', (4, 2), more[:20], ('late',)) and []]
    res = together([lambda j=j: [j()] for j in jobs])
    short, long_ = res[0], [b for b in res[1] if len(b['x']) > 1]
    bs = [b for b in short + long_ if not b['edge']]
    replay(chk, acl_of, bs, 'length-of-memory-differs')
    by = {}
    for b in bs:
        if len(b['x']) % 5 == 0 and len(b['x']) > 1:
            by.setdefault(len(b['x']), []).append(b)
    est = []
    for k in range(tier(900, 8000)):
        n = r.choice([x for x in by if x >= 25]) if k % 6 else 5
        est.append({'cols': [r.choice(by[n]) for _ in range(r.choice([1, 2, 3]))], 'before': r.choice([0, 0, 30, 77]), 'block': r.choice([1, 15, 40])})
    for b in by.get(100, []) + by.get(60, []):
        for d in (1, 2, 3):
            est.append({'cols': [by[len(b['x'])][0]] * (d - 1) + [b], 'before': 0, 'block': 1})
            est.append({'cols': [b] + [by[len(b['x'])][0]] * (d - 1), 'before': 64, 'block': 2})
    replay(chk, estimate, est, 'chain-length-differs')
    for d in ('first', 'above'):
        common.tlc('Ranks', ranks_cfg(2, 4, (d,), False), ok_rc=(12,))
    ks = generate('Ranks', ranks_cfg(2, tier(5, 7)), chk=chk) + generate('Ranks', ranks_cfg(3, tier(4, 5)), chk=chk)
    ks += together([lambda n=n: generate('Ranks', ranks_cfg(n, 3 * n + 1), simulate=tier(60, 800), depth=3 * n + 3, seeds=2, tag=str(n)) for n in (4, 7, 12)])
    replay(chk, ranks, ks, 'check-of-the-insertion-indices-differs')
    jobs = [{'n': 40, 'seed': r.randrange(2 ** 31), 'no': k, 'model': r.choice(['Gauss1', 'Gauss2', 'Prior', 'Stairs', 'Corner'])} for k in range(tier(24, 200))]
    run_all(chk, 'TuneTrace', fly, jobs, 'C24')
    jobs = [{'kind': 'hmc', 'model': r.choice(['Gauss1', 'Gauss2', 'Gauss3', 'Ring']), 'mx': r.choice([6, 20]), 'pool': 24, 'n': tier(25, 100), 'scale': r.choice([1.0, 0.6, 1.3]), 'seed': r.randrange(2 ** 31), 'no': k} for k in range(tier(16, 120))]
    jobs += [{'kind': 'slice', 'model': r.choice(['Gauss1', 'Gauss2', 'Gauss3', 'Stairs', 'Corner']), 'mx': r.choice([6, 20, 100]), 'pool': r.choice([5, 8]), 'n': tier(60, 200), 'tight': r.choice([0, 0, 1, 3]),
              'seed': r.randrange(2 ** 31), 'no': k} for k in range(tier(24, 200))]
    run_all(chk, 'TuneTrace', chains, jobs, 'C24')
    cases = []
    for k in range(tier(500, 5000)):
        n = r.choice([x for x in by if x >= 10])
        cases.append({'cols': [r.choice(by[n]) for _ in range(r.choice([1, 2, 3]))], 'flat': k % 3 == 0, 'amp': r.choice([0.1, 1.0, 5.0]), 'lp': [r.gauss(0, 1) for _ in range(n)]})
    jobs = [{'cases': c, 'seed': r.randrange(2 ** 31), 'no': k} for k, c in enumerate(cases[i:i + 40] for i in range(0, len(cases), 40))]
    run_all(chk, 'TuneTrace', thin, jobs, 'C24')
    jobs = [{'lp': lp, 'n': tier(6000, 60000), 'seed': r.randrange(2 ** 31)} for lp in ([0.0, -1.0], [0.0, -0.3, -3.0], [1.5, 1.5, 0.0, -0.7])]
    run_all(chk, 'TuneTrace', rate, jobs, 'C24')


CHECKS = {'C24': c24}
