"""Scenarios of whole runs, per property"""
import common, nsrun
from common import rng, tier

POL = ['random0.3', 'random0.05', 'random0.8', 'main', 'samplers', 'pct', 'round', 'starve1', 'starve2', 'starve0', 'stall', 'gate']


def fleet(r, kinds='mixed'):
    n = r.choice([1, 2, 2, 3, 3, 4])
    d = {'n': n, 'nlive': r.randrange(n + 1, 11), 'poolsize': r.choice([4, 6, 8, 12]), 'maxmcmc': r.choice([10, 12, 20])}
    d['fuel'], d['steps'] = 100000, 200000
    if kinds == 'mhs':
        return d
    x = r.random()
    if x < 0.35:
        d['nsl'] = r.randrange(1, n + 1)
    elif x < 0.5:
        d['nhmc'] = 1 if n < 4 else 2
        d['poolsize'], d['nlive'] = 24, n + r.randrange(1, 3)
    elif x < 0.6 and n >= 3:
        d['nsl'], d['nhmc'], d['poolsize'], d['nlive'] = 1, 1, 24, n + r.randrange(1, 3)
    return d


SIGS = [15, 2, 14, 3, 10, 12]         # every signal that the package handles
SMOOTH = ['Gauss2', 'Gauss1', 'Gauss3', 'Corner', 'Prior', 'Ring']
HOLES = ['NanPart', 'InfPart', 'InfMost', 'NanMost', 'Stairs']


def models_for(d, r, extra=()):
    if d.get('nhmc'):
        return r.choice(['Gauss2', 'Gauss1', 'Prior', 'Gauss3'])
    return r.choice(SMOOTH + list(extra))


def sampler_jobs(tag, n, kinds='mixed', holes=True, **kw):
    out = []
    for k in range(n):
        r = rng(tag, k)
        d = fleet(r, kinds)
        d.update(seed=r.randrange(10 ** 6), policy=POL[k % len(POL)], model=models_for(d, r, HOLES if holes else ()),
                 rseed=r.randrange(10 ** 4))
        if d['policy'] == 'starve2' and d['n'] < 2:
            d['policy'] = 'starve1'
        if k % 7 == 3:
            d['prempt'] = 5
        d.update(kw)
        d['name'] = '%s-%d-%s-%s' % (tag, k, d['model'], d['policy'])
        out.append(d)
    return out


def adv_jobs(tag, n, **kw):
    out = []
    for k in range(n):
        r = rng(tag, 'adv', k)
        nn = r.choice([1, 2, 3, 4, 5])
        d = {'n': nn, 'nlive': r.randrange(nn + 1, 14), 'poolsize': 4, 'maxmcmc': 10, 'model': 'Gauss2', 'seed': r.randrange(10 ** 6),
             'policy': POL[k % len(POL)], 'tol': r.choice([0.1, 0.1, 0.5, 0.01]), 'steps': 100000,
             'adv': {'grid': r.choice([0.5, 0.5, 0.01, 8.0, 1e-9]), 'base': r.choice([0.0, -1000.0, 700.0]), 'top': r.choice([12, 40])}}
        if d['policy'] == 'starve2' and nn < 2:
            d['policy'] = 'starve1'
        d.update({k: r.choice(v) if isinstance(v, list) else v for k, v in kw.items()})
        d['name'] = '%s-adv-%d-%s' % (tag, k, d['policy'])
        out.append(d)
    return out


def run_jobs(jobs, timeout=150):
    raws = common.parallel(nsrun.run_job, jobs, timeout=timeout)
    traces = []
    lost = []
    for j, (st, x) in zip(jobs, raws):
        if st == 'ok':
            traces.append(nsrun.to_trace(x, j['name']))
        elif st == 'timeout':
            lost.append(j['name'])
        else:
            raise common.MachineryError('scenario %s: %s' % (j['name'], x))
    return traces, lost


def evidence_of(chk, traces, lost):
    from collections import Counter
    c = Counter()
    for t in traces:
        for e in t['ev']:
            c[e['a']] += 1
    chk.cov['recorded_events'] = dict(chk.cov.get('recorded_events', {}), **c)
    if lost:
        chk.cov['scenarios_cut_by_the_clock'] = lost


def deep(tag, n, caps=(240, 300)):
    """Few live points and likelihoods that keep rising: many times as many iterations as live points (volumes below the smallest
    floating point number in the longest)"""
    out = []
    for k in range(n):
        r = rng(tag, 'deep', k)
        cap = caps[k % len(caps)]
        N = 2 if cap > 500 else 2 + k % 2
        out.append({'n': 1, 'nlive': N, 'poolsize': 4, 'maxmcmc': 10, 'model': 'Gauss2', 'seed': r.randrange(10 ** 6), 'policy': POL[k % 4], 'tol': 0.1,
                    'steps': 3000000, 'events': 60000, 'adv': {'grid': 2.0, 'base': r.choice([0.0, -5.0, -700.0]), 'top': 10 ** 6, 'cap': float(cap)},
                    'name': '%s-deep-%d' % (tag, k)})
    return out


def again(tag, n):
    """Runs to the end, with checkpoints at (nearly) every iteration, each started once more afterwards"""
    return [dict(d, again=1, interval=1e-9 if k % 4 != 3 else None) for k, d in enumerate(base_runs(tag + '-again', n))]


def hmc_fleets(tag, n):
    """Two or three Hamiltonian samplers at once, that are stopped between their operations"""
    out = []
    for k in range(n):
        r = rng(tag, 'hmcs', k)
        nn = r.choice([2, 2, 3])
        out.append({'n': nn, 'nhmc': nn, 'nlive': nn + r.randrange(1, 3), 'poolsize': 24, 'maxmcmc': r.choice([10, 12]), 'model': r.choice(['Gauss1', 'Gauss2', 'Gauss3', 'Gauss3']),
                    'policy': ['gate', 'gate', 'stall', 'random0.8'][k % 4], 'prempt': r.choice([0, 3]), 'seed': r.randrange(10 ** 6), 'rseed': r.randrange(10 ** 4),
                    'fuel': 100000, 'steps': 200000, 'name': '%s-hmcs-%d' % (tag, k)})
    return out


def short_chains(tag, n):
    """Chains of one to three steps: most points of the pools stay where they were drawn"""
    out = sampler_jobs(tag + '-short', n, 'mhs', False)
    for k, d in enumerate(out):
        d['maxmcmc'], d['model'], d['nlive'] = 1 + k % 2, ['Prior', 'Corner', 'Ring', 'Gauss3'][k // 2 % 4], d['n'] + 1 + k % 9
    return out


def simple(prop, n_smp, n_adv, mc=('plain', 'two'), beh=(0, ()), intr=0, adv=None, more=(), **kw):
    def run(chk):
        nsrun.prepare()
        model(chk, mc)
        jobs = []
        if n_adv:
            jobs += adv_jobs(prop, tier(n_adv, n_adv * 12), **(adv or {}))
        if intr:
            jobs += interrupted(prop, base_runs(prop, tier(intr, intr * 6)), tier(3, 20), modes=('line', 'ns', 'all'), late=False)
        if n_smp:
            jobs += sampler_jobs(prop, tier(n_smp, n_smp * 12), **kw)
        for f, k in more:
            jobs += f(prop, tier(k, k * 8))
        traces, lost = run_jobs(jobs)
        if beh[0]:
            traces += replays(chk, prop, tier(beh[0], beh[0] * 10), beh[1])
        evidence_of(chk, traces, lost)
        chk.traces('NSTrace', traces)
    return run


# ---------------------------------------------------------------------- the model, and its behaviours in the code

def ns_cfg(n, N, L, sig=0, bad=0, stale=0, wander=0, defects=(), inv='NoViolation NotStuck', extra=''):
    return common.cfg_file("""CONSTANTS n = %d N = %d MaxL = %d MaxSig = %d MaxBad = %d MaxStale = %d MaxWander = %d Defects = {%s}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT %s
%s""" % (n, N, L, sig, bad, stale, wander, ', '.join('"%s"' % d for d in defects), inv, extra))


# what the exhaustive runs vary: sizes, interrupts, bad first points, stale replies
SMALL = {'plain': (1, 3, 3, 0, 1, 1, 1), 'two': (2, 3, 2, 0, 1, 1, 1), 'interrupts': (1, 2, 3, 2, 1, 1, 1), 'two-interrupted': (2, 3, 2, 1, 0, 1, 0)}
BIG = {'two': (2, 3, 3, 0, 1, 1, 1), 'two-interrupted': (2, 3, 3, 1, 0, 0, 0), 'four-live': (2, 4, 3, 0, 0, 1, 0), 'three': (3, 4, 2, 0, 0, 1, 0),
       'twice-interrupted': (2, 3, 2, 2, 0, 0, 0)}
DEFECTS = {'lmaxrace': ('C07', (2, 3, 2, 0, 0, 0, 0)), 'nanpop': ('C05', (2, 3, 2, 0, 1, 0, 0)), 'noresend': ('C06', (1, 2, 3, 0, 0, 1, 0)),
           'accepteq': ('C01', (1, 2, 3, 0, 0, 1, 0)), 'condbefore': ('C04', (2, 3, 3, 0, 0, 0, 0)), 'latethr': ('C06', (2, 3, 2, 0, 0, 0, 0)),
           'nojoin': ('C05', (1, 2, 2, 0, 0, 0, 0)), 'nolast': ('C02', (1, 2, 2, 0, 0, 0, 0)), 'rollback': ('C08', (1, 2, 3, 1, 0, 0, 0)),
           'qc': ('C10', (2, 3, 3, 1, 0, 0, 0)), 'lmin': ('C10', (1, 3, 4, 1, 0, 0, 0))}


def model(chk, names):
    for k in names:
        chk.model(common.tlc('NS', ns_cfg(*SMALL[k])), 'NS ' + k + ' %r' % (SMALL[k],))
    if common.THOROUGH:
        for k, c in BIG.items():
            chk.model(common.tlc('NS', ns_cfg(*c), timeout=3000, heap='12g'), 'NS ' + k + ' %r' % (c,))
        chk.model(common.tlc('NS', common.cfg_file(open(ns_cfg(2, 3, 2, 1)).read().replace('INIT Init\nNEXT Next', 'SPECIFICATION Fair')
                                                   + 'PROPERTY Ends\n'), timeout=3000, heap='12g'), 'NS termination under fairness')
        # the clauses see what they are there for: with a repair switched off, the model breaks one
        for d, (p, c) in DEFECTS.items():
            if p == chk.prop:
                r = common.tlc('NS', ns_cfg(*c, defects=[d]), ok_rc=(12,), timeout=1500)
                chk.cov.setdefault('defects_found_in_the_model', []).append(d)


def behaviours(tag, k):
    """k behaviours of the specification, from TLC's simulator"""
    out = []
    r = rng(tag, 'beh')
    sizes = [(1, 3), (2, 3), (2, 5), (3, 5), (4, 6)]
    def one(a):
        (n, N), iters, seed = a
        f = ns_cfg(n, N, 40, 0, 2, 5, 0, inv='NoViolation Emit', extra='CONSTANTS Iters = %d Climb = 4\n' % iters)
        txt = open(f).read().replace('INIT Init\nNEXT Next', 'INIT GInit\nNEXT GNext')
        return common.tlc('NSGen', common.cfg_file(txt), workers=1, args=['-simulate', 'num=%d' % (k // len(sizes) * 2 + 10), '-depth', '900',
                                                                          '-seed', str(seed), '-aril', '0'], timeout=300)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(5) as ex:
        res = list(ex.map(one, [(z, r.choice([3, 5, 7]), r.randrange(10 ** 6)) for z in sizes]))
    for got in res:
        seen = []
        for x in got.prints:
            if x.startswith('B '):
                b = common.json.loads(x[2:])
                if b not in seen:
                    seen.append(b)
        r.shuffle(seen)
        out += seen[:k // len(sizes) + 1]
    return out


def replays(chk, tag, k, what):
    """Behaviours of the specification in the code: the samplers reply as in the behaviour, the nested sampler must do as there"""
    beh = behaviours(tag, k)
    jobs = []
    for i, b in enumerate(beh):
        r = rng(tag, 'replay', i)
        jobs.append({'n': b['n'], 'nlive': b['N'], 'poolsize': 4, 'maxmcmc': 10, 'model': 'Gauss2', 'seed': r.randrange(10 ** 6), 'tol': 0.01,
                     'policy': POL[i % 7], 'adv': {'grid': 3.0, 'base': r.choice([0.0, -50.0]), 'top': 1, 'script': b['rep']}, 'events': 4000,
                     'name': '%s-behaviour-%d' % (tag, i)})
    raws = common.parallel(nsrun.run_job, jobs, timeout=150)
    traces, same = [], 0
    for j, b, (st, x) in zip(jobs, beh, raws):
        if st == 'error':
            raise common.MachineryError(x)
        if st != 'ok':
            continue
        t = nsrun.to_trace(x, j['name'])
        traces.append(t)
        for q, (want, got) in enumerate(zip(b['ends'], x.get('ends', []))):
            bad = [f for f in what if (got[f] != want[f] if f != 'ins' else len(got[f]) != len(want[f]) or
                                       any(abs(u - v) > 2 for u, v in zip(got[f], want[f])))]
            if bad:
                chk.viols.append(common.Violation('behaviour-of-the-specification-not-followed', t, None,
                                                  {'iteration': q + 1, 'specified': want, 'happened': got}, j['name']))
                break
            same += 1
    chk.cov['behaviours_replayed'] = len(traces)
    chk.cov['iterations_as_in_the_behaviour'] = same
    return traces


def windows(bases):
    """How many lines and scheduling points the main process has from its first iteration on, per scenario (a dry run each)"""
    raws = common.parallel(nsrun.run_job, [dict(b, count=True) for b in bases], timeout=150)
    out = []
    for b, (st, x) in zip(bases, raws):
        if st == 'error':
            raise common.MachineryError(x)
        w = x['phases'][0]['window'] if st == 'ok' else [None, None]
        out.append(w if w[0] and w[1] else None)
    return out


def base_runs(tag, n, **kw):
    """Short runs to interrupt: nested samplers with real samplers of every type"""
    out = []
    for k in range(n):
        r = rng(tag, 'base', k)
        nn = r.choice([1, 2, 2, 3])
        d = {'n': nn, 'nlive': r.randrange(nn + 1, 8), 'poolsize': r.choice([4, 6]), 'maxmcmc': r.choice([10, 12]), 'fuel': 60000,
             'model': r.choice(['Gauss2', 'Gauss1', 'Corner', 'NanPart', 'Stairs']), 'policy': r.choice(['random0.3', 'random0.05', 'random0.8', 'round', 'main', 'pct']),
             'seed': r.randrange(10 ** 6), 'rseed': r.randrange(10 ** 4), 'resume': True}
        if k % 3 == 1:
            d['nsl'] = r.randrange(1, nn + 1)
        if k % 6 == 5:
            d.update(nhmc=1, nsl=0, poolsize=24, model='Gauss2', nlive=nn + 2)
        if k % 8 == 6:          # one sampler of every type
            d.update(n=3, nhmc=1, nsl=1, poolsize=24, model='Gauss2', nlive=r.choice([4, 5]))
        d.update(kw)
        d['name'] = '%s-%d-%s' % (tag, k, d['model'])
        out.append(d)
    return out


def interrupted(tag, bases, per, modes=('line', 'line', 'ns', 'all'), lives=(1, 1, 2), fewer=True, late=True):
    """Interrupts at chosen instants of the base runs, then resumed to the end"""
    win = windows(bases)
    jobs = []
    for b, w in zip(bases, win):
        if w is None:
            continue
        r = rng(tag, 'intr', b['name'])
        (l0, p0), (l1, p1) = w
        for k in range(per):
            mode = modes[k % len(modes)]
            j = dict(b)
            intr = []
            for life in range(r.choice(lives)):
                # the later lives are shorter
                x = r.random() ** (1 if life == 0 else 3)
                hi = 1.05 if late else 1.0
                if mode == 'line':
                    intr.append({'kind': 'line', 'n': 1 + int(x * max(1, int(hi * l1)))})
                else:
                    intr.append({'kind': 'point', 'n': p0 + int(x * max(1, int(hi * (p1 - p0)))) if life == 0 else 1 + int(x * max(1, p1 - p0)), 'who': mode})
            j['intr'] = intr
            j['sig'] = SIGS[len(jobs) % len(SIGS)]
            if fewer and r.random() < 0.3:
                j['n2'] = r.choice([q for q in (1, 2, 3) if q < j['nlive']])
                if j.get('nhmc'):
                    j['n2'] = 1
                    j['nhmc2'] = 1
                elif j.get('nsl'):
                    j['nsl2'] = r.randrange(0, j['n2'] + 1)
            j['name'] = '%s-%s-%d' % (b['name'], mode, k)
            jobs.append(j)
    return jobs


def c08(chk):
    nsrun.prepare()
    model(chk, ('interrupts', 'two-interrupted'))
    bases = base_runs('C08', tier(14, 60))
    jobs = interrupted('C08', bases, tier(14, 120))
    jobs += base_runs('C08-periodic', tier(10, 40), interval=0.05)
    jobs += again('C08', tier(10, 60))
    traces, lost = run_jobs(jobs)
    evidence_of(chk, traces, lost)
    chk.traces('NSTrace', traces)


def c10(chk):
    nsrun.prepare()
    model(chk, ('interrupts', 'two-interrupted'))
    bases = base_runs('C10', tier(16, 60))
    jobs = interrupted('C10', bases, tier(10, 60), modes=('ns', 'all', 'line'), lives=(1, 2, 3))
    jobs += interrupted('C10-periodic', base_runs('C10-p', tier(6, 30), interval=0.05), tier(4, 20), modes=('ns', 'all'))
    # the state of the nested sampler is gone, those of the samplers are still there
    jobs += [dict(j, lose=[k % 2]) for k, j in enumerate(interrupted('C10-lost', base_runs('C10-l', tier(8, 30)), tier(3, 12), modes=('ns', 'all', 'line'), lives=(2,)))]
    traces, lost = run_jobs(jobs)
    evidence_of(chk, traces, lost)
    chk.traces('NSTrace', traces)


CHECKS = {
    'C01': simple('C01', 20, 46, beh=(40, ('disc', 'live')), intr=4, more=[(deep, 6)]),
    'C02': simple('C02', 30, 40, beh=(30, ()), intr=6),
    'C03': simple('C03', 30, 46, beh=(30, ()), intr=5, more=[(lambda t, n: deep(t, n, (3600, 240, 300)), 6)]),
    'C04': simple('C04', 24, 70, intr=6, more=[(again, 16), (deep, 3)], adv={'tol': [0.1, 0.1, 0.5, 0.01, 1.0, 2.0, 4.0]}),
    'C05': simple('C05', 90, 30),
    'C06': simple('C06', 80, 0, intr=4),
    'C07': simple('C07', 50, 20, intr=10, more=[(hmc_fleets, 20), (short_chains, 16)]),
    'C08': c08,
    'C10': c10,
    'C13': simple('C13', 60, 0, mc=('plain',), intr=6),
    'C17': simple('C17', 20, 40, beh=(40, ('ins',)), mc=('plain',), intr=3),
}
