"""Chains of the real samplers, driven by scripted proposals and models or by the real ones, recorded for spec/ChainTrace.tla"""
import array, json, math, os, random
import boot, common
from common import cfg_file, chunks, generate, rng, tier
from nsrun import Plain, f64

INF = math.inf
DRAWS = []            # uniform random numbers seen since the last proposal; None: one that was not of a single number
EXPS = []             # exponential ones since the last direction
_ready = []


def prepare():
    if _ready:
        return
    import numpy as np

    def watch(mod, name, log):
        f = getattr(mod, name)

        def w(*a, **k):
            x = f(*a, **k)
            log.append(float(x) if not a and not k and np.ndim(x) == 0 else None)
            return x
        setattr(mod, name, w)
    watch(random, 'random', DRAWS)
    for n in ('random', 'rand', 'random_sample', 'uniform'):
        watch(np.random, n, DRAWS)
    watch(np.random, 'exponential', EXPS)
    watch(np.random, 'standard_exponential', EXPS)
    boot.install()
    import cpnest, cpnest.cpnest, cpnest.sampler, cpnest.proposal, cpnest.model, cpnest.parameter
    boot.quiet()
    import logging
    logging.getLogger('cpnest').propagate = False
    logging.getLogger('cpnest').addHandler(logging.NullHandler())
    _ready.append(1)


class Manager:
    def __init__(self):
        self.logLmin, self.logLmax, self.checkpoint_flag = Plain(-INF), Plain(-INF), Plain(0)
        self.nconnected, self.nthreads, self.periodic_checkpoint_interval = Plain(0), 1, INF
        self.producer_pipes, self.consumer_pipes = [None], [None]

    def connect_producer(self):
        return None, 0


class Halt(BaseException):
    pass


class Rec:
    """Records the chains of one sampler"""
    def __init__(self, kind, model, s, limit=6000):
        self.kind, self.model, self.s = kind, model, s
        self.ids, self.pts = {}, []
        self.ev, self.steps, self.thr, self.limit = [], [], -INF, limit
        self.n0, self.on, self.direction, self.known, self.pend = 0, False, None, [], None
        self.maxsteps = None

    def id(self, p):
        k = bytes(bytearray(p.values.tobytes()))
        if k not in self.ids:
            self.ids[k] = len(self.pts) + 1
            self.pts.append([list(p.values), None, None])
        return self.ids[k]

    def L(self, i):
        e = self.pts[i - 1]
        if e[1] is None:
            e[1] = float(self.model.true_L(self.mk(e[0])))
        return e[1]

    def P(self, i):
        e = self.pts[i - 1]
        if e[2] is None:
            e[2] = float(self.model.true_P(self.mk(e[0])))
        return e[2]

    def mk(self, v):
        from cpnest.parameter import LivePoint
        return LivePoint(list(self.model.names), d=array.array('d', v))

    def own(self, p):
        i = self.id(p)
        return f64(p.logL) == f64(self.L(i)) and f64(p.logP) == f64(self.P(i))

    # -- the chain
    def begin(self, thr):
        s = self.s
        self.thr = thr
        pool = [self.id(p) for p in s.evolution_points]
        self.ev.append({'a': 'Begin', 'pool': pool, 'Nm': int(s.Nmcmc), 'mx': int(s.maxmcmc)})
        self.known = list(dict.fromkeys(pool))
        self.steps, self.n0, self.on, self.pend = [], len(s.samples), True, None
        self.nsteps = 0
        del DRAWS[:], EXPS[:]

    def settle(self):
        """the decision of the last proposal, as far as the random numbers since then tell"""
        st = self.pend
        self.pend = None
        if st is None:
            return
        if st.get('dec') is None:
            r, d = st.pop('r'), list(DRAWS)
            if math.isnan(r):
                st['dec'] = 'rej'
            elif r >= 0:
                st['dec'] = 'acc'
            elif r < -750:
                st['dec'] = 'rej'
            elif len(d) == 1 and d[0] is not None and 0 <= d[0] < 1:
                lu = math.log(d[0]) if d[0] > 0 else -INF
                st['dec'] = 'open' if abs(r - lu) < 1e-9 else 'acc' if r > lu else 'rej'
            else:
                st['dec'] = 'open'
        st.pop('r', None)
        self.steps.append(st)

    def proposed(self, frm, y, r, dec=None):
        self.nsteps += 1
        st = {'a': 'Step', 'from': frm, 'y': self.id(y), 'above': bool(self.L(self.id(y)) > self.thr), 'r': r, 'dec': dec, 'next': 0}
        self.pend = st
        del DRAWS[:]
        if len(self.ev) + len(self.steps) > self.limit:
            raise Halt('cut')

    def dir(self, d):
        self.nsteps += 1
        self.direction = d
        self.steps.append({'a': 'Dir'})
        del EXPS[:]
        if len(self.ev) + len(self.steps) > self.limit:
            raise Halt('cut')

    def evaluated(self, p):
        y = self.id(p)
        yv = self.pts[y - 1][0]
        d = self.direction
        cand, lev = [], []
        for c in self.known:
            cv = self.pts[c - 1][0]
            df = [a - b for a, b in zip(yv, cv)]
            dd = sum(v * v for v in d)
            t = sum(a * b for a, b in zip(df, d)) / dd if dd > 0 else 0.0
            tol = [1e-9 * max(abs(a), abs(b), abs(t * e), 1e-300) for a, b, e in zip(yv, cv, d)]
            if all(abs(f - t * e) <= q for f, e, q in zip(df, d, tol)):
                cand.append(c)
                x = EXPS[0] if len(EXPS) == 1 else None
                pc, py = self.P(c), self.P(y)
                if x is not None:
                    g = py - (pc - x)
                    lev.append('open' if abs(g) < 1e-9 else 'yes' if g > 0 else 'no')
                elif math.isnan(py) or py == -INF or py < pc - 750:
                    lev.append('no')
                else:
                    lev.append('yes' if py > pc else 'open')
        above = bool(self.L(y) > self.thr)
        self.steps.append({'a': 'Eval', 'y': y, 'above': above, 'cand': cand, 'lev': lev})
        if above and y not in self.known:
            self.known.append(y)
        if len(self.ev) + len(self.steps) > self.limit:
            raise Halt('cut')

    def end(self, r):
        s = self.s
        self.settle()
        self.on = False
        n, p = r
        res = self.id(p)
        rec = [self.id(q) for q in list(s.samples)[self.n0:]]
        if self.kind == 'mh' and len(rec) == len(self.steps):
            for st, q in zip(self.steps, rec):
                st['next'] = q
        self.ev += self.steps
        pool = list(s.evolution_points)
        v = [float(x) for x in p.values]
        self.ev.append({'a': 'End', 'res': res, 'n': int(n), 'pool': [self.id(q) for q in pool], 'rec': rec,
                        'sub': int(round(s.sub_acceptance * 1e5)), 'acc': int(round(s.acceptance * 1e5)), 'tot': int(s.mcmc_accepted),
                        'cnt': int(s.mcmc_counter), 'own': bool(self.own(p) and all(self.own(q) for q in pool)),
                        'inside': bool(all(lo < x < hi for x, (lo, hi) in zip(v, self.model.bounds)) and math.isfinite(self.P(res))),
                        'above': bool(self.L(res) > self.thr)})
        self.steps = []

    def attach(self):
        """record every chain that this sampler makes from now on"""
        s, orig = self.s, self.s.yield_sample

        def ys(thr):
            g = orig(thr)
            while True:
                self.begin(thr)
                r = next(g)
                self.end(r)
                yield r
        s.yield_sample = ys
        prop = s.proposal
        if self.kind == 'slice':
            gd = prop.get_direction

            def get_direction(*a, **k):
                d = gd(*a, **k)
                if self.on:
                    self.dir([float(x) for x in (d.values if hasattr(d, 'values') else d)])
                return d
            prop.get_direction = get_direction
            self.model.seen = lambda p: self.on and self.evaluated(p)
        else:
            gs = prop.get_sample

            def get_sample(old, *a, **k):
                if self.on:
                    self.settle()
                    frm = self.id(old)
                y = gs(old, *a, **k)
                if self.on:
                    r = float(prop.log_J)
                    if self.kind == 'mh':
                        r += self.P(self.id(y)) - self.P(frm)
                    self.proposed(frm, y, r)
                return y
            prop.get_sample = get_sample

    def trace(self, name):
        return {'cfg': {'kind': self.kind, 'pool': []}, 'ev': self.ev, 'name': name}

    def play(self, fn):
        try:
            fn()
        except Halt as h:
            self.ev += self.steps if self.kind != 'mh' else []
            self.ev.append({'a': 'Cut' if str(h) == 'cut' else 'Endless'})
        except Exception as e:
            import traceback
            self.crash = traceback.format_exc()[-1500:]
            self.ev.append({'a': 'Crash', 'why': '%s: %s' % (type(e).__name__, str(e)[:200]), 'tb': self.crash})


# ------------------------------------------------------------------------------ scripted proposals and models

THRS = (0.0, -INF, 3.5, -1e5)


def scripted_model():
    from cpnest.model import Model

    class Scripted(Model):
        names = ['x']
        bounds = [[0.0, 1e9]]

        def __init__(self):
            self.tab = {}

        def log_prior(self, p):
            return self.tab[p['x']][1]

        def log_likelihood(self, p):
            return self.tab[p['x']][0]
        true_L, true_P = log_likelihood, log_prior
    return Scripted()


def sampler_class(kind):
    import cpnest.sampler as S
    return {'mh': S.MetropolisHastingsSampler, 'hmc': S.HamiltonianMonteCarloSampler, 'slice': S.SliceSampler}[kind]


class Script:
    """A proposal that does what a behaviour of spec/Chain.tla says"""
    log_J = 0.0
    proposals = ()

    def __init__(self, rec, kind, model):
        self.rec, self.kind, self.model, self.next, self.todo, self.extra = rec, kind, model, 1000.0, [], 0

    def set_ensemble(self, e):
        pass

    def get_sample(self, old, **kw):
        from cpnest.parameter import LivePoint
        r = self.rec
        r.settle()
        frm = r.id(old)
        if self.todo:
            h, l = self.todo.pop(0)
        else:
            h, l = ('a1', 'above') if self.kind == 'hmc' else self.last
            self.extra += 1
            if self.extra > 60:
                raise Halt('endless')
        self.last = (h, l)
        self.next += 1.0
        thr, cur = r.thr, self.model.tab[old['x']][1]
        dP, J = {'a1': (800.0, 0.0), 'a2': (-300.0, 310.0), 'a3': (0.0, 0.0), 'r1': (-800.0, 0.0), 'r2': (300.0, -1100.0),
                 'r3': (-INF, 0.0), 'r4': (0.0, -INF)}[h]
        if self.kind == 'hmc':
            J = {'a1': 0.0, 'a2': 300.0, 'a3': 0.0, 'r1': -800.0, 'r2': -1100.0, 'r3': -INF, 'r4': math.nan}[h]
            dP = 1.0
        fin = thr if thr > -INF else -1e300
        L = {'above': max(fin, -1e5) + 1.0, 'just': math.nextafter(fin, INF), 'equal': thr, 'below': fin - 1.0 if thr > -INF else -INF,
             'nan': math.nan, 'ninf': -INF}[l]
        self.model.tab[self.next] = (L, cur + dP)
        p = LivePoint(['x'], d=array.array('d', [self.next]))
        if self.kind == 'hmc':
            p.logL, p.logP = L, cur + dP
        self.log_J = J
        r.proposed(frm, p, 0.0, 'acc' if h[0] == 'a' else 'rej')
        return p


def scripted(job):
    """Play the scripts one after the other in one sampler"""
    kind = job['kind']
    random.seed(job['seed'])
    import numpy as np
    np.random.seed(job['seed'])
    m = scripted_model()
    s = sampler_class(kind)(m, 10, poolsize=job['pool'], manager=Manager(), proposal=Script(None, kind, m), output='.')
    rec = Rec(kind, m, s, 10 ** 6)
    s.proposal.rec = rec
    for k in range(job['pool']):
        q = rec.mk([float(k + 1)])
        q.logL, q.logP = 4.0 + k, -1.0 * k
        m.tab[q['x']] = (q.logL, q.logP)
        s.evolution_points.append(q)
    s.samples = []
    orig = s.yield_sample

    def play():
        for k, b in enumerate(job['scripts']):
            thr = THRS[k % len(THRS)]
            s.logLmin.value = thr
            for ch in b:
                s.Nmcmc, s.maxmcmc = ch['Nm'], ch['mx']
                s.proposal.todo = [tuple(x) for x in ch['steps']]
                s.proposal.extra = 0
                # likelihoods of the pool stay as they are; the threshold only concerns new points
                rec.begin(thr)
                r = next(orig(thr))
                rec.end(r)
    rec.play(play)
    return rec.trace('%s-script-%d' % (kind, job['no']))


def frequencies(job):
    """How often steps of a given ratio are accepted"""
    import numpy as np
    kind, n = job['kind'], job['n']
    random.seed(job['seed'])
    np.random.seed(job['seed'] % 2 ** 32)
    m = scripted_model()

    class Ratio:
        log_J, proposals, new = 0.0, (), 1.0

        def set_ensemble(self, e):
            pass

        def get_sample(self, old, **kw):
            self.new += 1.0
            dP = job['r'] - job['J'] if kind == 'mh' else 0.0
            q = m_mk([self.new])
            m.tab[self.new] = (1.0, m.tab[old['x']][1] + dP)
            q.logL, q.logP = m.tab[self.new]
            self.log_J = job['J'] if kind == 'mh' else job['r']
            return q
    s = sampler_class(kind)(m, n, poolsize=2, manager=Manager(), proposal=Ratio(), output='.')
    m_mk = Rec(kind, m, s).mk
    for k in range(2):
        q = m_mk([float(-k)])
        q.logL, q.logP = m.tab[-float(k)] = (1.0, 0.0)
        s.evolution_points.append(q)
    p = math.exp(min(0.0, job['r']))

    def freq(k, n, p):
        sd = math.sqrt(n * p * (1 - p))
        return {'a': 'Freq', 'k': k, 'lo': int(math.floor(n * p - 6 * sd - 1)), 'hi': int(math.ceil(n * p + 6 * sd + 1))}
    ev = []
    rec = Rec(kind, m, s)

    def play():
        if kind == 'mh':
            s.Nmcmc = s.maxmcmc = n
            s.samples = []
            next(s.yield_sample(0.0))
            xs = [q['x'] for q in s.samples]
            a = [int(x != y) for x, y in zip([None] + xs[:-1], xs)][1:]
            ev.append(freq(sum(a), len(a), p))
            pairs = list(zip(a[::2], a[1::2]))
            ev.append(freq(sum(x and y for x, y in pairs), len(pairs), p * p))
            trip = list(zip(a[::3], a[1::3], a[2::3]))
            ev.append(freq(sum(x and not y and z for x, y, z in trip), len(trip), p * p * (1 - p)))
        else:
            ns = [next(s.yield_sample(0.0))[0] for _ in range(n // 4)]
            ev.append(freq(sum(x == 1 for x in ns), len(ns), p))
            ev.append(freq(sum(x == 2 for x in ns), len(ns), p * (1 - p)))
    rec.play(play)
    return {'cfg': {'kind': kind, 'pool': []}, 'ev': ev + rec.ev, 'name': '%s-frequency-%g-%g' % (kind, job['r'], job['J'])}


# ------------------------------------------------------------------------------------ real proposals and models

def watched(name):
    import models
    base = models.MODELS[name]

    class Watched(base):
        seen = None

        def log_likelihood(self, p):
            if self.seen:
                self.seen(p)
            return super().log_likelihood(p)

        def true_L(self, p):
            return base.log_likelihood(self, p)

        def true_P(self, p):
            return base.log_prior(self, p)
    return Watched()


def real(job):
    import numpy as np
    import cpnest.proposal as P
    kind = job['kind']
    random.seed(job['seed'])
    m = watched(job['model'])
    prop = {'mh': lambda: P.DefaultProposalCycle(), 'hmc': lambda: P.HamiltonianProposalCycle(model=m),
            'slice': lambda: P.EnsembleSliceProposalCycle()}[kind]()
    if job.get('only') is not None and kind != 'hmc':
        prop = type(prop)()
        prop.weights = [1.0 if k == job['only'] else 0.0 for k in range(len(prop.proposals))]
        prop.set_cycle()
    s = sampler_class(kind)(m, job['mx'], poolsize=job['pool'], manager=Manager(), proposal=prop, output='.', seed=job['seed'])
    rec = Rec(kind, m, s, job.get('limit', 5000))
    rec.attach()
    r = random.Random(job['seed'])

    def play():
        s.reset()
        thr = -INF
        for k in range(job['chains']):
            Ls = sorted(p.logL for p in s.evolution_points if p.logL == p.logL)
            if Ls and r.random() < (0.3 if kind == 'hmc' else 0.7):
                thr = max(thr, Ls[min(len(Ls) - 1, int(len(Ls) * r.choice([0.1, 0.3] if kind == 'hmc' else [0.1, 0.3, 0.5, 0.9])))])
            s.logLmin.value = thr
            if kind == 'hmc' or r.random() < 0.5:                # a request: the point comes on top of the pool
                pts = list(s.evolution_points)
                q = r.choice([x for x in pts if x.logL > thr] or pts).copy()
                s.evolution_points.append(q)
            s.Nmcmc = r.choice([1, 3, job['mx'] // 2 or 1, job['mx'], job['mx'] + 5])
            next(s.yield_sample(thr))
            if k % 5 == 4:
                s.proposal.set_ensemble(s.evolution_points)
                s.estimate_nmcmc_on_the_fly()
    rec.play(play)
    return rec.trace('%s-real-%s-%d' % (kind, job['model'], job['seed']))


def chain_cfg(kind, pool, nms, mxs, hows, liks, chains, steps, defects=(), emit=True):
    q = lambda xs: ', '.join('"%s"' % x for x in xs)
    return cfg_file('CONSTANTS Kind = "%s" PoolN = %d Nms = {%s} Mxs = {%s} Hows = {%s} Liks = {%s} MaxChains = %d MaxSteps = %d Defects = {%s}\n'
                    'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Allowed %s\n' %
                    (kind, pool, ', '.join(map(str, nms)), ', '.join(map(str, mxs)), q(hows), q(liks), chains, steps, q(defects), 'Emit' if emit else ''))


ALLH, ALLL = ('a1', 'a2', 'a3', 'r1', 'r2', 'r3', 'r4'), ('above', 'just', 'equal', 'below', 'nan', 'ninf')


def results(chk, fn, jobs, what, prop):
    ts = []
    for j, (st, t) in zip(jobs, common.parallel(fn, jobs, timeout=300)):
        if st != 'ok':
            raise common.MachineryError('%s: %s %s' % (what, st, t))
        ts.append(t)
    chk.traces('ChainTrace', ts, [prop])
    return ts


def scripts(chk, kind, prop):
    bs = []
    if kind == 'mh':
        bs += generate('Chain', chain_cfg(kind, 2, (1, 2, 3), (1, 2), ALLH, ALLL, 1, 2), chk=chk)
        bs += generate('Chain', chain_cfg(kind, 2, (1, 2, 3), (3,), ('a1', 'a2', 'r1') if not common.THOROUGH else ('a1', 'a2', 'r2', 'r4'),
                                          ('above', 'equal', 'nan') if not common.THOROUGH else ALLL, 1, 3), chk=chk)
        bs += generate('Chain', chain_cfg(kind, 3, (1, 2, 4, 6), (3, 5, 8), ALLH, ALLL, 4, 8), simulate=tier(300, 6000), depth=60, seeds=4)
    else:
        bs += generate('Chain', chain_cfg(kind, 2, (1,), (3,), ALLH, ALLL, 1, 2), chk=chk)
        bs += generate('Chain', chain_cfg(kind, 2, (1,), (3,), ('a1', 'r1', 'r4'), ('above', 'equal', 'nan'), 1, 3), chk=chk)
        bs += generate('Chain', chain_cfg(kind, 3, (1, 5), (3, 8), ('a1', 'r1', 'r2', 'r3', 'r4'), ('just', 'equal', 'below', 'nan', 'ninf'), 2, 8), simulate=tier(300, 6000), depth=60, seeds=4)
    for d in ('noratio', 'atbound') + (('early',) if kind == 'mh' else ()):
        common.tlc('Chain', chain_cfg(kind, 2, (2,), (3,), ('a1', 'r1'), ('above', 'equal'), 1, 3, (d,), False), ok_rc=(12,))
    r = rng('scripts', kind)
    r.shuffle(bs)
    jobs = [{'kind': kind, 'scripts': c, 'pool': 3, 'seed': r.randrange(2 ** 31), 'no': k}
            for k, c in enumerate(bs[i:i + 120] for i in range(0, len(bs), 120))]
    chk.cov['scripts'] = chk.cov.get('scripts', 0) + len(bs)
    results(chk, scripted, jobs, 'scripts', prop)


def freqs(chk, kind, prop):
    r = rng('freq', kind)
    jobs = []
    for x in (-0.05, -0.3, -0.7, -1.5, -3.0, 0.4):
        for J in ((0.0, x, 2.5, -2.0) if kind == 'mh' else (0.0,)):
            jobs.append({'kind': kind, 'r': x, 'J': J, 'n': tier(8000, 100000), 'seed': r.randrange(2 ** 31)})
    results(chk, frequencies, jobs, 'frequencies', prop)


REAL = {'mh': ('Gauss1', 'Gauss3', 'Prior', 'NanPart', 'Stairs', 'InfMost', 'Corner', 'Island'), 'hmc': ('Gauss2', 'Gauss3', 'Prior', 'Corner', 'Gauss1', 'Ring', 'Island'),
        'slice': ('Gauss1', 'Gauss3', 'Prior', 'NanPart', 'Stairs', 'InfMost', 'Corner', 'Island')}


def reals(chk, kind, prop, n):
    r = rng('real', kind)
    jobs = []
    for k in range(n):
        m = REAL[kind][k % len(REAL[kind])]
        jobs.append({'kind': kind, 'model': m, 'seed': r.randrange(2 ** 31), 'mx': r.choice([4, 12, 30]), 'chains': tier(20, 60) if kind == 'hmc' else tier(25, 80),
                     'pool': {'mh': r.choice([6, 12]), 'hmc': 24, 'slice': r.choice([5, 8])}[kind],
                     'only': r.choice([None, None, None, 0, 1, 2]), 'limit': tier(700, 2500) if kind == 'hmc' else 2500})
    return results(chk, real, jobs, 'real', prop)


def c11(chk):
    prepare()
    scripts(chk, 'mh', 'C11')
    freqs(chk, 'mh', 'C11')
    reals(chk, 'mh', 'C11', tier(40, 400))


def c12(chk):
    prepare()
    scripts(chk, 'hmc', 'C12')
    freqs(chk, 'hmc', 'C12')
    reals(chk, 'hmc', 'C12', tier(70, 700))
    reals(chk, 'slice', 'C12', tier(40, 400))


def c13(chk):
    """what the chains end at, alone: own values, inside the support"""
    prepare()
    reals(chk, 'mh', 'C13', tier(16, 200))
    reals(chk, 'hmc', 'C13', tier(40, 400))
    reals(chk, 'slice', 'C13', tier(16, 200))


def interrupted(job):
    """A signal in the middle of a chain: the handler's exception comes out of the user's likelihood or prior, the sampler saves itself"""
    import os, pickle, tempfile, shutil
    import numpy as np
    import cpnest.proposal as P
    import models
    from cpnest.cpnest import CheckPoint
    random.seed(job['seed'])
    np.random.seed(job['seed'] % 2 ** 32)
    kind, M, r = job['kind'], models.MODELS[job['model']], random.Random(job['seed'])
    left, ids, ev = [None], {}, []
    pid = lambda p: ids.setdefault(bytes(bytearray(p.values.tobytes())), len(ids) + 1)

    def arm(cl, name):
        f = getattr(cl, name)

        def w(self, p):
            if left[0] is not None:
                left[0] -= 1
                if left[0] <= 0:
                    left[0] = None
                    raise CheckPoint()
            return f(self, p)
        w.__name__ = name                    # pickled by its name
        setattr(cl, name, w)
    arm(M, 'log_likelihood')
    arm(M, 'log_prior')
    cl = sampler_class(kind)
    ys = cl.yield_sample

    def note(s, a, **k):
        ev.append(dict({'a': a, 'pool': [pid(p) for p in s.evolution_points], 'Nm': int(s.Nmcmc), 'mx': int(s.maxmcmc)}, **k))

    def yield_sample(self, thr):
        g = ys(self, thr)
        while True:
            note(self, 'Begin')
            x = next(g)
            note(self, 'Begin')
            yield x
    cl.yield_sample = yield_sample

    class Pipe:
        asked = None

        def poll(self, *a):
            return self.asked is not None

        def recv(self):
            p, self.asked = self.asked, None
            return p

        def send(self, x):
            pass
    d = tempfile.mkdtemp(prefix='cpv-int-')
    crash = None
    try:
        m = M()
        prop = {'mh': lambda: P.DefaultProposalCycle(), 'hmc': lambda: P.HamiltonianProposalCycle(model=m), 'slice': lambda: P.EnsembleSliceProposalCycle()}[kind]()
        f = os.path.join(d, 'sampler.pkl')
        man = Manager()
        s = cl(m, job['mx'], poolsize=job['pool'], manager=man, proposal=prop, output=d, seed=job['seed'] % 2 ** 31, resume_file=f)
        s.reset()
        for _ in range(job['n']):
            s.producer_pipe = Pipe()
            Ls = sorted(p.logL for p in s.evolution_points if p.logL == p.logL)
            if Ls and r.random() < 0.5:
                s.logLmin.value = max(s.logLmin.value, Ls[len(Ls) // 4])
            if r.random() < 0.5:
                pts = list(s.evolution_points)
                s.producer_pipe.asked = r.choice([x for x in pts if x.logL > s.logLmin.value] or pts).copy()
            if os.path.exists(f):
                os.remove(f)
            left[0] = r.choice([1, 2, 3, 4, 5, 7, 12, 30, 60])
            try:
                s.produce_sample()
            except SystemExit:
                pass
            left[0] = None
            saved = os.path.exists(f)
            if saved:
                with open(f, 'rb') as h:
                    t = pickle.load(h)
                note(t, 'Int', saved=True)
                s = cl.resume(f, man, m)
            else:
                note(s, 'Int', saved=False)
    except Exception as e:
        import traceback
        ev.append({'a': 'Crash', 'why': '%s: %s' % (type(e).__name__, str(e)[:200]), 'tb': traceback.format_exc()[-1500:]})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {'cfg': {'kind': kind, 'pool': []}, 'ev': ev, 'name': '%s-interrupted-%s-%d' % (kind, job['model'], job['seed'])}


def c10(chk):
    prepare()
    r = rng('interrupted')
    jobs = [{'kind': kind, 'model': m, 'seed': r.randrange(2 ** 31), 'mx': r.choice([4, 12, 30]), 'n': tier(12, 40),
             'pool': {'mh': r.choice([6, 12]), 'hmc': 24, 'slice': r.choice([5, 8])}[kind]}
            for kind in ('mh', 'hmc', 'slice') for m in (('Gauss1', 'Gauss3', 'Prior', 'Stairs') if kind != 'hmc' else ('Gauss1', 'Gauss2', 'Gauss3', 'Ring')) for _ in range(tier(4, 40))]
    results(chk, interrupted, jobs, 'interrupted', 'C10')


CHECKS = {'C10': c10, 'C11': c11, 'C12': c12, 'C13': c13}
