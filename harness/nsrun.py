"""Runs of the whole of cpnest in the simulated operating system, recorded as traces for spec/NSTrace.tla."""
import json, math, os, random, struct, sys, tempfile, threading, traceback

import boot, simos

_ready = [False]


def prepare():
    if not _ready[0]:
        simos.patch()
        boot.install()
        import cpnest, cpnest.cpnest, cpnest.NestedSampling, cpnest.sampler, cpnest.proposal
        boot.quiet()
        import logging
        logging.getLogger('cpnest').propagate = False
        logging.getLogger('cpnest').addHandler(logging.NullHandler())
        _ready[0] = True


def f64(x):
    return struct.unpack('<Q', struct.pack('<d', float(x)))[0]


NAN, NEG, POS = -1, 0, 1000000


class Points:
    """Points by value: the same coordinates, likelihood and prior give the same id"""
    def __init__(self):
        self.ids, self.rows = {}, []

    def id(self, p):
        if p is None:
            return 0
        k = (tuple(p.names), bytes(bytearray(p.values.tobytes())), f64(p.logL), f64(p.logP))
        if k not in self.ids:
            self.ids[k] = len(self.rows) + 1
            self.rows.append((list(p.names), [float(v) for v in p.values], float(p.logL), float(p.logP)))
        return self.ids[k]


class Plain:
    def __init__(self, v):
        self.value = v

    def get_lock(self):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class FakeManager:
    """What resume() needs of a manager, to look into a checkpoint file"""
    def __init__(self, n=4):
        self.logLmin, self.logLmax, self.checkpoint_flag = Plain(-math.inf), Plain(-math.inf), Plain(0)
        self.consumer_pipes, self.producer_pipes = [None] * n, [None] * n
        self.nthreads, self.periodic_checkpoint_interval = n, math.inf
        self.nconnected = Plain(0)

    def connect_producer(self):
        return None, 0


SAMPLER_STATE = ('Nmcmc', 'Nmcmc_exact', 'mcmc_accepted', 'mcmc_counter', 'acceptance', 'sub_acceptance', 'mu', 'initialised',
                 'poolsize', 'maxmcmc', 'seed', 'verbose', 'sample_prior', 'tuning_steps', 'max_steps_out', 'max_slices')
PROPOSAL_STATE = ('dt', 'base_dt', 'scale', 'L', 'base_L', 'idx', 'N', 'log_J')


class Recorder:
    def __init__(self, job):
        self.job = job
        self.ev = []
        self.pts = Points()
        self.cp = None
        self.NS = None
        self.phase_no = 0
        self.tick = 0
        self.evals = {}         # (proc, coordinates) -> tick of the first likelihood evaluation (or arrival) there
        self.nevals = {}
        self.srecv = {}
        self.lastpoll = {}
        self.pipes = {}
        self.lmax_recv = -math.inf
        self.in_iter = False
        self.wrapped = False
        self.seen_ns = 0
        self.seen_ins = 0
        self.last_vol = 0.0
        self.lines = 0
        self.armed = False
        self.window = [None, None]
        self.files = {}
        self.signalled = False
        self.main_points = 0
        self.fuel = 0
        self.drain = 0
        self.restarts = []
        self.over, self.after = False, 0

    # -- helpers
    def add(self, a, **k):
        k['a'] = a
        self.ev.append(k)
        if len(self.ev) > self.job.get('events', 12000) and simos.SCHED:
            simos.SCHED.halt('fuel')

    def burn(self, k):
        """Account for an evaluation of the model; after the iterations are over only the chains under way are finished"""
        if self.over:
            self.after += k
            if self.after > 15000 and simos.SCHED:
                simos.SCHED.halt('drain')
            return
        self.fuel += k
        if self.fuel > self.job.get('fuel', 400000) and simos.SCHED:
            simos.SCHED.halt('fuel')

    def attach(self, cp):
        self.cp, self.NS = cp, cp.NS
        self.pipes = {}
        for i, c in enumerate(cp.manager.consumer_pipes):
            self.pipes[c.pair] = i + 1
        self.srecv, self.lastpoll = {}, {}

    def snap(self, NS):
        st = NS.state
        return {'live': [self.pts.id(p) for p in NS.params], 'nsN': len(NS.nested_samples), 'it': int(NS.iteration),
                'nvol': len(st.log_vols), 'nL': len(st.logLs)}

    def full(self, NS):
        d = self.snap(NS)
        d['ns'] = [self.pts.id(p) for p in NS.nested_samples]
        d['_lmin'], d['_lmax'] = float(NS.logLmin.value), float(NS.logLmax.value)
        d['nins'] = len(NS.insertion_indices)
        d['_vol'] = float(NS.state.log_vols[-1])
        d['_logZ'] = float(NS.state.logZ)
        return d

    def rect(self, NS):
        """the rectangle sum of the recorded entries, as observed"""
        return self.rect_of(NS.state)

    def rect_of(self, st):
        L, V = st.logLs, st.log_vols
        t = [L[i] + V[i - 1] + math.log(-math.expm1(V[i] - V[i - 1])) for i in range(1, min(len(L), len(V)))
             if V[i] < V[i - 1] and L[i] > -math.inf]
        if not t:
            return -math.inf
        m = max(t)
        return m + math.log(sum(math.exp(x - m) for x in t))

    def info(self, st):
        """the information of the weights of these entries, against the one recorded; relative to the size of the likelihoods"""
        L, V, Z = st.logLs, st.log_vols, self.rect_of(st)
        t = [(L[i], L[i] + V[i - 1] + math.log(-math.expm1(V[i] - V[i - 1])) - Z) for i in range(1, min(len(L), len(V)))
             if V[i] < V[i - 1] and L[i] > -math.inf]
        if not t or not math.isfinite(Z):
            return self.dev(float(st.info), 0.0)
        s = max([1.0] + [abs(l) for l, _ in t])
        H = sum(math.exp(w) * (l / s) for l, w in t) - Z / s
        return self.dev(float(st.info) / s, H)

    def dev(self, a, b):
        """difference in units of 1e-7, clipped"""
        if a == b:
            return 0
        d = a - b
        if math.isnan(d) or math.isinf(d):
            return 10 ** 9
        return int(max(-10 ** 9, min(10 ** 9, round(d * 1e7))))

    # -- called from the wrapped methods of the nested sampler
    def iter_begin(self, NS):
        self.in_iter = True
        if self.window[0] is None:
            self.window[0] = (self.lines, self.main_points)
        self.armed = True
        self.add('IterBegin', **self.snap(NS))

    def iter_end(self, NS):
        self.in_iter = False
        self.window[1] = (self.lines, self.main_points)
        d = self.snap(NS)
        st = NS.state
        d['tail'] = [self.pts.id(p) for p in NS.nested_samples[self.seen_ns:]]
        self.seen_ns = len(NS.nested_samples)
        ins = list(NS.insertion_indices[self.seen_ins:])
        self.seen_ins = len(NS.insertion_indices)
        d['ins'] = [int(round(float(x) * 1e6)) if math.isfinite(x) and abs(x) < 1000 else -10 ** 9 for x in ins]
        v = float(st.log_vols[-1])
        d['vol'] = int(round(v * 1e6)) if math.isfinite(v) and v > -1500 else -2 * 10 ** 9
        d['_last'] = float(st.logLs[-1])
        d['zdev'] = self.dev(float(st.logZ), self.rect(NS))
        d['infodev'] = self.info(st)
        lmaxb = float(NS.logLmax._v if hasattr(NS.logLmax, '_v') else NS.logLmax.value)
        tol = float(self.job.get('tol', 0.1))
        Z = self.rect(NS)

        def cond(lm):
            if lm == -math.inf or Z == -math.inf:
                return math.inf if Z == -math.inf and lm > -math.inf else 0.0
            x = lm + v - Z
            return math.log1p(math.exp(x)) if x < 700 else x
        d['muststop'] = bool(cond(lmaxb) <= tol - 1e-9)
        d['maystop'] = bool(cond(self.lmax_recv) <= tol + 1e-9)
        d['_lmaxb'] = lmaxb
        self.add('IterEnd', **d)

    def ckpt(self, fn, model, how):
        """look into the checkpoint file of the nested sampler"""
        from cpnest.NestedSampling import NestedSampler
        save = simos.SCHED
        simos.SCHED = None
        try:
            o = NestedSampler.resume(fn, FakeManager(), model)
            d = self.full(o)
            d['ok'] = True
        except Exception as e:
            d = {'ok': False, 'why': '%s: %s' % (type(e).__name__, str(e)[:200])}
        finally:
            simos.SCHED = save
        self.add('Ckpt', how=how, **d)

    # -- events of the simulated operating system
    def on(self, kind, proc, *x):
        self.tick += 1
        if kind == 'send':
            conn, obj = x
            p = self.pipes.get(conn.pair)
            if p is None:
                return
            if proc.idx == 0:
                if obj is None:
                    self.add('Send', p=p, k='none', pt=0)
                elif isinstance(obj, str):
                    self.add('Send', p=p, k='ckpt', pt=0)
                else:
                    self.add('Send', p=p, k='pt', pt=self.pts.id(obj))
            else:
                pt = obj[-1]
                t = self.evals.get((proc.idx, bytes(bytearray(pt.values.tobytes()))), -1)
                self.add('SSend', p=p, pt=self.pts.id(pt), moved=bool(t > self.srecv.get(proc.idx, 1 << 60)), _n=int(obj[2]))
        elif kind == 'recvcall':
            conn, = x
            p = self.pipes.get(conn.pair)
            if p is None:
                return
            if proc.idx == 0:
                self.add('RecvCall', p=p)
            elif not conn.inbox:
                self.add('SIdle', p=p)
        elif kind == 'recv':
            conn, obj = x
            p = self.pipes.get(conn.pair)
            if p is None:
                return
            if proc.idx == 0:
                self.lmax_recv = max(self.lmax_recv, self.lmax_now())
                self.add('Recv', p=p, pt=self.pts.id(obj[-1]))
            else:
                k = 'none' if obj is None else 'ckpt' if isinstance(obj, str) else 'pt'
                self.srecv[proc.idx] = self.tick
                if k == 'pt':
                    self.evals.setdefault((proc.idx, bytes(bytearray(obj.values.tobytes()))), self.tick)
                self.lastpoll.pop(proc.idx, None)
                self.add('SRecv', p=p, k=k, pt=self.pts.id(obj) if k == 'pt' else 0)
        elif kind == 'poll' and not self.job.get('adv'):
            conn, = x
            p = self.pipes.get(conn.pair)
            if p is not None and proc.idx != 0:
                n = self.nevals.get(proc.idx, 0)
                if not conn.inbox:
                    if self.lastpoll.get(proc.idx) == n:
                        self.add('SIdle', p=p)
                    self.lastpoll[proc.idx] = n
                else:
                    self.lastpoll.pop(proc.idx, None)
        elif kind == 'write':
            v, old, new = x
            m = self.cp and self.cp.manager
            if not m:
                return
            if v is m.logLmin:
                if new == math.inf and proc.idx == 0:
                    self.armed = False          # the iterations are over
                    self.over = True
                    self.lmax_over = self.lmax_now()
                if proc.idx == 0 and not self.wrapped and math.isfinite(new) and not self.signalled:
                    if self.window[0] is not None:
                        self.iter_end(self.NS)
                    self.iter_begin(self.NS)
                self.add('Lmin', by=proc.idx, _v=float(new))
            elif v is m.logLmax:
                if f64(old) != f64(new):
                    self.add('Lmax', by=proc.idx, _v=float(new))
            elif v is m.checkpoint_flag:
                self.add('Flag', by=proc.idx, v=int(new))
        elif kind == 'exit':
            code, = x
            if proc.idx:
                self.add('SExit', p=proc.idx, code=int(code))
        elif kind == 'start':
            self.add('Start')
        elif kind == 'killed':
            self.add('Killed', p=proc.idx)
        elif kind == 'signal':
            if proc.idx == 0:
                self.signalled = True
            self.add('Signal', p=proc.idx)

    def lmax_now(self):
        return float(self.cp.manager.logLmax._v) if self.cp else -math.inf


REC = None


def rec_model(base):
    """The model of a run: counts its calls in each process, and can deliver signals there"""
    class RecModel(base):
        def log_likelihood(self, p):
            r = REC
            if r is not None:
                c = simos.cur()
                i = c.idx if c else -1
                r.tick += 1
                r.evals.setdefault((i, bytes(bytearray(p.values.tobytes()))), r.tick)
                r.nevals[i] = r.nevals.get(i, 0) + 1
                r.burn(1)
                if r.job.get('prempt') and simos.SCHED and r.nevals[i] % r.job['prempt'] == 0:
                    simos.SCHED.point()
            return super().log_likelihood(p)

        def log_prior(self, p):
            r = REC
            if r is not None:
                c = simos.cur()
                i = c.idx if c else -1
                r.nevals[i] = r.nevals.get(i, 0) + 1
                r.burn(0.25)
            return super().log_prior(p)

        def __deepcopy__(self, memo):
            return self
    RecModel.__name__ = RecModel.__qualname__ = base.__name__ + 'Rec'
    globals()[RecModel.__name__] = RecModel         # as a user's model: Hamiltonian samplers pickle it
    return RecModel


def sampler_state(s, rec):
    """What a sampler must get back on resume, canonically"""
    d = {'type': type(s).__name__, 'pool': [rec.pts.id(p) for p in s.evolution_points],
         'maxlen': s.evolution_points.maxlen or 0, 'nsamples': len(s.samples), 'initialised': bool(s.initialised)}
    sc = {}
    for k in SAMPLER_STATE:
        if hasattr(s, k):
            sc[k] = repr(getattr(s, k))
    props = getattr(s.proposal, 'proposals', None)
    for j, q in enumerate(list(props) if props is not None else []):
        for k in PROPOSAL_STATE:
            if k in getattr(q, '__dict__', {}):
                sc['%d.%s' % (j, k)] = repr(q.__dict__[k])
    sc['cycle'] = repr([type(c).__name__ for c in getattr(s.proposal, 'cycle', [])])
    d['scalars'] = sc
    return d


def own_pool(s):
    """The proposals' ensembles are made of the sampler's own points (by identity, or else by value)"""
    e = getattr(s.proposal, 'ensemble', None)
    if e is None:
        return True
    ok = e is s.evolution_points
    for q in getattr(s.proposal, 'proposals', []):
        if hasattr(q, 'set_ensemble') and getattr(q, 'ensemble', None) is not None:
            ok = ok and q.ensemble is s.evolution_points
    return ok


def make_run(job, rec, resume):
    import cpnest
    from models import MODELS
    M = rec_model(MODELS[job['model']])
    cp = cpnest.CPNest(M(), nlive=job['nlive'], poolsize=job.get('poolsize', 8), output=job['out'], verbose=job.get('verbose', 0),
                       seed=job.get('rseed', 1), maxmcmc=job.get('maxmcmc', 12), nthreads=job['n'], nhamiltonian=job.get('nhmc', 0),
                       nslice=job.get('nsl', 0), resume=resume, prior_sampling=job.get('prior', False),
                       periodic_checkpoint_interval=job.get('interval'))
    cp.NS.tolerance = job.get('tol', 0.1)
    return cp


def samplers_of(cp):
    out = []
    for p in cp.process_pool:
        s = getattr(p._target, '__self__', None)
        if s is None:
            s = next((a for a in p._args if hasattr(a, 'produce_sample')), None)
        out.append(s)
    return out


def wrap_class(rec):
    """Observe the iterations and the checkpoints of the nested sampler (this process only)"""
    from cpnest.NestedSampling import NestedSampler as C
    if hasattr(C, 'consume_sample') and not hasattr(C.consume_sample, '_obs'):
        orig = C.consume_sample

        def consume_sample(self, *a, **k):
            r = REC
            r.iter_begin(self)
            out = orig(self, *a, **k)
            r.iter_end(self)
            return out
        consume_sample._obs = True
        C.consume_sample = consume_sample
    rec.wrapped = hasattr(C, 'consume_sample')
    if hasattr(C, 'checkpoint') and not hasattr(C.checkpoint, '_obs'):
        origc = C.checkpoint

        def checkpoint(self, *a, **k):
            out = origc(self, *a, **k)
            REC.ckpt(self.resume_file, self.model, 'call')
            return out
        checkpoint._obs = True
        C.checkpoint = checkpoint
    from cpnest.sampler import Sampler
    for K in (Sampler, *Sampler.__subclasses__()):
        if 'checkpoint' in K.__dict__ and not hasattr(K.checkpoint, '_obs'):
            def wrap(origs):
                def checkpoint(self, *a, **k):
                    out = origs(self, *a, **k)
                    c = simos.cur()
                    if c is not None and c.idx:
                        REC.saved[c.idx] = sampler_state(self, REC)
                    return out
                checkpoint._obs = True
                return checkpoint
            K.checkpoint = wrap(K.checkpoint)


def tracer(rec, at, signum):
    root = os.path.join(boot.REPO, 'cpnest') + os.sep

    def local(frame, event, arg):
        if event == 'line' and rec.armed and not rec.signalled:
            rec.lines += 1
            if at is not None and rec.lines == at:
                rec.where = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                simos.SCHED.handle(simos.cur(), signum, frame)
        return local

    def glob(frame, event, arg):
        if frame.f_code.co_filename.startswith(root):
            return local
        return None
    return glob


def adversary(i, pipe, lmin, lmax, seed, mode):
    """A sampler that replies whatever it likes: above, at or below the threshold, NaN, -inf, old points, copies of others"""
    import array
    from cpnest.parameter import LivePoint
    rnd = random.Random(seed)
    old = []
    level = [mode.get('base', 0.0)]
    grid = mode.get('grid', 0.5)
    peak = mode.get('base', 0.0) + min(grid * mode.get('top', 12), mode.get('cap', 25.0))      # nothing lies above
    script = list((mode.get('script') or [[]] * 9)[i])
    if mode.get('script'):
        peak = mode.get('base', 0.0) + grid * (1 + max(x for q in mode['script'] for x in q))
    n = 0
    while True:
        if lmin.value == math.inf:
            break
        if not pipe.poll():
            continue
        p = pipe.recv()
        if p is None or isinstance(p, str):
            break
        t = lmin.value
        x = rnd.random()
        n += 1
        if script:
            L = script.pop(0)
            L = math.nan if L == -1 else -math.inf if L == 0 else mode.get('base', 0.0) + grid * L
        elif t == -math.inf:
            L = math.nan if x < 0.15 else -math.inf if x < 0.3 else mode.get('base', 0.0) + grid * rnd.randrange(0, 6)
        else:
            up = t + grid * rnd.choice([1, 1, 1, 2, 2, 3, 4])
            if up >= peak:
                up = t + (peak - t) * rnd.choice([0.1, 0.3, 0.5])
            if mode.get('cap'):
                x = max(x, 0.5) if x > 0.06 else x         # nearly always above
            if x < 0.1:
                L = t
            elif x < 0.2:
                L = t - grid * rnd.randrange(1, 4)
            elif x < 0.25:
                L = math.nan
            elif x < 0.3:
                L = -math.inf
            elif x < 0.37 and old:
                L = None
            elif x < 0.42:
                L = float(np_nextafter(t, -1e9))
            elif x < 0.47:
                L = float(np_nextafter(t, 1e9))
            else:
                L = up
        if L is None:
            q = rnd.choice(old)
        else:
            q = LivePoint(list(p.names), d=array.array('d', [rnd.uniform(-2.9, 2.9) for _ in p.names]), logL=L, logP=0.0)
            if t == -math.inf and not script and rnd.random() < 0.05:
                q.logP = -math.inf
            else:
                old.append(q)
        if math.isfinite(q.logL):
            with lmax.get_lock():
                lmax.value = max(lmax.value, q.logL)
        pipe.send((0.5, 0.5, 3, q))


def np_nextafter(a, b):
    return math.nextafter(a, b)


def run_phase(job, rec, no, resume):
    """One life of the run; returns how it ended"""
    import numpy as np
    sig = job.get('sig', 15)
    intr = (job.get('intr') or [])
    intr = intr[no] if no < len(intr) else None
    simos.reset()
    rnd = random.Random('%s/%s/%s' % (job['seed'], no, job.get('policy', 'random0.3')))
    sched = simos.Sched(simos.make_policy(job.get('policy', 'random0.3'), rnd), fuel=job.get('steps', 600000), on_event=rec.on)
    simos.SCHED = sched
    simos._real['pyseed'](job['seed'] * 7 + no)
    simos._real['seed'](job['seed'] % 100000 + no)
    rec.lines, rec.main_points, rec.armed, rec.signalled = 0, 0, False, False
    rec.window = [None, None]
    rec.where = None
    rec.over, rec.after = False, 0
    rec.nevals = {}            # evals stays: a pool carries its points over to the next life
    rec.lmax_recv = -math.inf
    res = {'how': None, 'code': None}
    shut = {'at': None}

    def hook(s):
        if s.current.idx == 0:
            rec.main_points += 1
        if intr and intr['kind'] == 'point' and not rec.signalled and not rec.__dict__.get('fired') and rec.armed \
                and rec.main_points >= intr['n'] and s.current.idx == 0:
            rec.fired = True
            for q in list(s.procs):
                if not q.dead and (intr.get('who', 'ns') == 'all' or q.idx == 0 or q.idx in intr.get('also', ())):
                    q.pending.append(sig)
    sched.point_hook = hook
    rec.fired = False

    def main():
        cp = make_run(job, rec, resume)
        rec.attach(cp)
        wrap_class(rec)
        rec.seen_ns, rec.seen_ins = len(cp.NS.nested_samples), len(cp.NS.insertion_indices)
        rec.files = {i + 1: s.resume_file for i, s in enumerate(samplers_of(cp)) if s is not None}
        d = rec.full(cp.NS) if getattr(cp.NS, 'initialised', False) else \
            {'live': [], 'nsN': len(cp.NS.nested_samples), 'it': int(cp.NS.iteration), 'nvol': len(cp.NS.state.log_vols),
             'nL': len(cp.NS.state.logLs), 'ns': [], '_lmin': float(cp.manager.logLmin._v), '_lmax': float(cp.manager.logLmax._v),
             'nins': len(cp.NS.insertion_indices), '_vol': 0.0, '_logZ': -math.inf}
        ss = samplers_of(cp)
        d['n'] = len(cp.manager.consumer_pipes)
        d['fleet'] = [type(s).__name__ for s in ss]
        d['chan'] = [rec.pipes.get(s.producer_pipe.pair, 0) for s in ss]
        d['res'] = [bool(s.initialised) for s in ss]
        d['own'] = [bool(own_pool(s)) for s in ss]
        if no > 0:
            d['same'] = []
            for i, s in enumerate(ss):
                if i + 1 in rec.saved and rec.saved[i + 1]['initialised'] and getattr(cp.NS, 'initialised', False):
                    a, b = rec.saved[i + 1], sampler_state(s, rec)
                    same = a['type'] == b['type'] and a['pool'] == b['pool'] and a['nsamples'] == b['nsamples'] \
                        and a['maxlen'] == b['maxlen']
                    bad = [k for k in a['scalars'] if b['scalars'].get(k) != a['scalars'][k]]
                    d['same'].append('yes' if same and not bad else 'no')
                    if not same or bad:
                        rec.diff = {'saved': a, 'restored': b, 'bad': bad}
                else:
                    d['same'].append('none')
        rec.add('Init' if no == 0 else 'Restart', **d)
        if job.get('adv'):
            for i, q in enumerate(cp.process_pool):
                q._target, q._args = adversary, (i, cp.manager.producer_pipes[i], cp.manager.logLmin, cp.manager.logLmax,
                                                 '%s/%s/%s' % (job['seed'], i, no), job['adv'])
        if intr and intr['kind'] == 'line' or job.get('count'):
            sys.settrace(tracer(rec, intr['n'] if intr else None, sig))
        try:
            cp.run()
            res['how'], res['code'] = 'return', 0
        except SystemExit as e:
            res['how'], res['code'] = 'exit', e.code if isinstance(e.code, int) else 1
        finally:
            sys.settrace(None)
        rec.add('MainEnd', how=res['how'], code=res['code'], joined=all(q._p is not None and q._p.dead for q in cp.process_pool),
                results=bool(res['how'] == 'return' and cp.NS.logZ is not None and getattr(cp, 'nested_samples', None) is not None
                             and getattr(cp, 'posterior_samples', None) is not None) if not job.get('prior') else
                bool(res['how'] == 'return' and getattr(cp, 'nested_samples', None) is not None))
        rec.ended = cp
        # what the end of a process does: wait for its children
        for q in cp.process_pool:
            if q._p is not None:
                simos.SCHED.block(lambda: q._p.dead, ('join', q._p))
        rec.add('AllEnd', n=sum(1 for q in cp.process_pool if q._p is not None and q._p.dead))

    # the nested sampler waits for a reply that will never come: let the samplers go on for a while, then give up
    def stuck(s):
        hook(s)
        m = s.procs[0]
        if m.cond is not None and m.what and m.what[0] == 'recv' and s.steps % 64 == 0:
            conn = m.what[1]
            if not conn.inbox and not conn.peer.inbox:
                owed = sum(1 for e in rec.ev if e['a'] == 'SRecv' and e['p'] == rec.pipes.get(conn.pair) and e['k'] == 'pt') \
                    - sum(1 for e in rec.ev if e['a'] == 'SSend' and e['p'] == rec.pipes.get(conn.pair))
                if owed <= 0:
                    rec.idle = getattr(rec, 'idle', 0) + 1
                    if rec.idle > 40:
                        s.halt('stuck')
                    return
        rec.idle = 0
        # the samplers should end soon after the nested sampler
        if any(e['a'] == 'MainEnd' for e in rec.ev[-400:]) or (m.cond is not None and m.what and m.what[0] == 'join'):
            rec.drain += 1
            if rec.drain > 60000:
                s.halt('drain')
    sched.point_hook = stuck
    reason = sched.run(main, wall=job.get('wall', 90))
    simos.SCHED = None
    res['reason'] = reason
    res['where'] = rec.where
    res['window'] = rec.window
    res['crashes'] = sched.crashes
    if reason == 'wall':
        res['stuck_at'] = getattr(sched, 'stuck_at', None)
    res['drain'] = rec.drain
    res['procs'] = [(q.idx, q.dead, q.exitcode, str(q.what)[:60] if q.cond else None) for q in sched.procs]
    rec.sched = sched
    return res


def run_job(job):
    """A scenario: one life of the run, or several with interrupts between them; returns the raw record"""
    global REC
    prepare()
    sys.setswitchinterval(0.005)
    with_dir = tempfile.mkdtemp(prefix='cpv-ns-')
    job = dict(job, out=os.path.join(with_dir, 'out'))
    rec = REC = Recorder(job)
    rec.saved = {}
    out = {'job': {k: v for k, v in job.items() if k != 'out'}, 'phases': []}
    try:
        lives = 1 + len(job.get('intr') or []) + job.get('again', 0)
        for no in range(lives):
            if no and job.get('n2'):
                job['n'] = job['n2']
                job['nsl'], job['nhmc'] = job.get('nsl2', 0), job.get('nhmc2', 0)
                rec.job = job
            res = run_phase(job, rec, no, bool(job.get('resume', bool(job.get('intr')))))
            out['phases'].append(res)
            if res['reason'] != 'all ended' or res['crashes']:
                break
            if res['how'] == 'exit':
                fn = os.path.join(job['out'], 'nested_sampler_resume.pkl')
                if os.path.exists(fn):
                    rec.ckpt(fn, rec.cp.user, 'file')
                files = [int(os.path.exists(os.path.join(job['out'], 'sampler_%d.pkl' % i))) for i in range(job['n'])]
                rec.add('Files', ns=os.path.exists(fn), smp=files)
                if no in job.get('lose', ()) and os.path.exists(fn):
                    os.remove(fn)
                    rec.add('Lost')
            elif no + 1 < lives and job.get('again'):
                continue        # the run is over, and is started once more on its own output
            else:
                break
        # the results
        if out['phases'][-1].get('how') == 'return' and out['phases'][-1]['reason'] == 'all ended':
            NS = rec.ended.NS
            L, V = list(map(float, NS.state.logLs)), list(map(float, NS.state.log_vols))
            d = rec.full(NS)
            d['prior'] = bool(job.get('prior', False))
            d['_Ls'] = L
            d['vols'] = [int(round(v * 1e6)) if math.isfinite(v) and v > -1500 else -2 * 10 ** 9 for v in V]
            t = [math.log(0.5 * (math.exp(L[i - 1] - max(L[i], L[i - 1])) + math.exp(L[i] - max(L[i], L[i - 1])))) + max(L[i], L[i - 1])
                 + V[i - 1] + math.log(-math.expm1(V[i] - V[i - 1])) for i in range(1, min(len(L), len(V)))
                 if V[i] < V[i - 1] and max(L[i], L[i - 1]) > -math.inf]
            Z = -math.inf
            if t:
                m = max(t)
                Z = m + math.log(sum(math.exp(x - m) for x in t))
            d['trapdev'] = 0 if d['prior'] else rec.dev(float(NS.state.logZ), Z)
            d['infodev'] = 0 if d['prior'] else rec.info(NS.state)
            d['retdev'] = 0 if d['prior'] else rec.dev(float(NS.logZ), float(NS.state.logZ))
            try:
                w = open(NS.evidence_file).read().split('\n')[1].split()
                # the samplers may go on for a moment while the file is written
                a, b = getattr(rec, 'lmax_over', -math.inf), rec.lmax_now()
                d['fileok'] = d['prior'] or len(w) == 3 and abs(float(w[0]) - NS.state.logZ) < 0.6e-5 and abs(float(w[2]) - NS.state.info) < 0.6e-2 \
                    and a - 0.6e-5 <= float(w[1]) <= b + 0.6e-5
            except Exception:
                d['fileok'] = False
            rec.add('Results', **d)
        out['diff'] = getattr(rec, 'diff', None)
        out['ev'] = rec.ev
        # the points: does the model agree?
        from models import MODELS
        from cpnest.parameter import LivePoint
        import array
        m = MODELS[job['model']]()
        rows = []
        for names, vals, lL, lP in rec.pts.rows:
            q = LivePoint(list(m.names), d=array.array('d', vals))
            tl, tp = float(m.log_likelihood(q)), float(m.log_prior(q))
            inb = len(vals) == len(m.names) and all(m.bounds[i][0] < vals[i] < m.bounds[i][1] for i in range(len(vals)))
            rows.append({'L': lL, 'okL': f64(tl) == f64(lL), 'okP': f64(tp) == f64(lP), 'inb': bool(inb and math.isfinite(tp)),
                         'nm': names == list(m.names), 'P': bool(lP != -math.inf)})
        out['pts'] = rows
        if job.get('adv') and job['adv'].get('script'):
            lv = {i + 1: r[2] for i, r in enumerate(rec.pts.rows)}
            g, b = job['adv']['grid'], job['adv'].get('base', 0.0)
            lev = lambda ids: [-1 if math.isnan(lv[i]) else 0 if math.isinf(lv[i]) else int(round((lv[i] - b) / g)) for i in ids]
            out['ends'] = [{'disc': lev(e['tail']), 'live': lev(e['live']), 'it': e['it'], 'ins': e['ins']} for e in rec.ev if e['a'] == 'IterEnd']
        out['model_values'] = None
        return out
    finally:
        import shutil
        shutil.rmtree(with_dir, ignore_errors=True)


# -------------------------------------------------------------------------------- raw record -> trace

def to_trace(raw, name=None):
    """Numbers become dense ranks; what remains is integers, booleans and strings"""
    vals = set()

    def see(x):
        if x is not None and isinstance(x, float) and math.isfinite(x):
            vals.add(x)
    for c in (c for q in raw['phases'] for c in q['crashes']):
        fr = [f for f in c['frames']]
        if fr and fr[-1][0].startswith(os.path.join(boot.VERIF, 'harness')) and os.path.basename(fr[-1][0]) != 'simos.py':
            raise RuntimeError('the harness failed: %r' % (c,))
    for r in raw['pts']:
        see(r['L'])
    for e in raw['ev']:
        for k in ('_v', '_lmin', '_lmax', '_last', '_lmaxb'):
            if k in e:
                see(e[k])
        for x in e.get('_Ls', []):
            see(x)
    rank = {v: i + 1 for i, v in enumerate(sorted(vals))}

    def rk(x):
        if math.isnan(x):
            return NAN
        if x == -math.inf:
            return NEG
        if x == math.inf:
            return POS
        return rank[x]
    ev = []
    for e in raw['ev']:
        d = {}
        for k, v in e.items():
            if k in ('_v', '_lmin', '_lmax', '_last', '_lmaxb'):
                d[k[1:]] = rk(v)
            elif k == '_Ls':
                d['Ls'] = [rk(x) for x in v]
            elif k == '_vol':
                d['vol'] = int(round(v * 1e6)) if math.isfinite(v) and v > -1500 else -2 * 10 ** 9
            elif k.startswith('_') or k == 'why':
                continue
            else:
                d[k] = v
        ev.append(d)
    last = raw['phases'][-1]
    crash = [c for p in raw['phases'] for c in p['crashes']]
    if crash:
        ev.append({'a': 'Crash', 'proc': crash[0]['proc']})
    elif last['reason'] == 'stuck' or last['reason'] == 'deadlock':
        ev.append({'a': 'Stuck'})
    elif last['reason'] == 'drain':
        ev.append({'a': 'Drain'})
    elif last['reason'] in ('fuel', 'wall'):
        ev.append({'a': 'Cut'})
    job = raw['job']
    pts = [{'L': rk(r['L']), 'okL': r['okL'], 'okP': r['okP'], 'inb': r['inb'], 'nm': r['nm'], 'P': r['P']} for r in raw['pts']]
    cfg = {'N': job['nlive'], 'n': job['n'], 'prior': bool(job.get('prior', False)), 'pts': pts,
           'lives': 1 + len(job.get('intr') or []) + job.get('again', 0)}
    return {'name': name or job.get('name'), 'cfg': cfg, 'ev': ev, 'job': job,
            'phases': [{k: v for k, v in p.items() if k != 'window'} for p in raw['phases']], 'crashes': crash}
