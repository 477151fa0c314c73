"""Files, logs and arrays of whole runs (spec/Outputs.tla, spec/OutputsTrace.tla), and posterior samples of whole runs"""
import logging, math, os, random, re, shutil, sys, tempfile, traceback
import boot, common, nsrun, simos
from common import cfg_file, generate, rng, tier
from proposal_checks import run_all

DIRS = ['out', 'with space', "it's", 'semi; touch injected', 'glob*[a]?', '$HOME', '`touch injected`', 'ünïcode', '-rf', 'nested/deep/dir', 'trail/', './dot',
        'dir.d', '%d%s', '{0}{x}', '~', 'a&b|c', '"quoted"', 'prior_samples_7.dat', 'new\nline', 'back\\slash', '#hash', '..hidden']
DECOYS = ['prior_samples.txt', 'prior_samples_old.dat', 'prior_samples.dat', 'mcmc_chain_backup.dat', 'my_prior_samples_1.dat', 'prior_samples_1.dat.bak', 'prior_samples_1_2.dat',
          'mcmc_chain_.dat', 'mcmc_chain_x1.dat', 'mcmc_chain.dat', 'notes.dat', 'old_posterior.dat', 'chain_99_1.bak', 'sampler_notes.txt', 'nested_samples.dat.old',
          'sampler.pkl.bak', 'a b.dat', 'resume.pkl', '-f', 'mcmc_chains.dat', 'prior.dat.orig', 'injected.txt', 'prior_samplesX.dat', 'xmcmc_chain_3.dat', 'mcmc_chain_3.data']


def prepare():
    nsrun.prepare()
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot, matplotlib.backends.backend_pdf
    import cpnest.plot


STATE = re.compile(r'\.pkl|\.tmp$')            # checkpoints, also under the name they have while they are written


class Watch:
    """File operations of this process, by audit events"""
    def __init__(self, out, decoys):
        self.out, self.decoys, self.on, self.ev = os.path.realpath(out), {os.path.realpath(d) for d in decoys}, False, []
        self.own, self.content, self.mine = set(), {}, set()
        sys.addaudithook(self.hook)

    def path(self, p):
        if isinstance(p, int):
            return None
        p = os.fsdecode(p)
        if p.startswith('/dev/') or '__pycache__' in p or p.endswith('.pyc'):
            return None
        return os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(p))

    def kind(self, p):
        if p in self.decoys:
            return 'decoy'
        if p in self.own:
            return 'own'
        if STATE.search(p) or p in self.mine:
            return 'state'
        return 'out'

    def hook(self, name, args):
        if not self.on:
            return
        try:
            if name == 'open':
                p, mode, flags = args
                w = any(c in mode for c in 'wax+') if isinstance(mode, str) else bool((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
                p = self.path(p) if w else None
                if p:
                    self.write(p)
            elif name in ('os.remove', 'os.rmdir', 'os.truncate', 'shutil.rmtree'):
                p = self.path(args[0])
                if p:
                    self.remove(p)
            elif name in ('os.rename', 'os.link', 'os.symlink', 'shutil.move', 'shutil.copyfile'):
                a, b = self.path(args[0]), self.path(args[1])
                if a in self.own and name == 'os.rename':
                    self.own.discard(a)
                    if not STATE.search(b):
                        self.own.add(b)
                if b:
                    self.write(b)
                if a and name in ('os.rename', 'shutil.move') and self.kind(a) == 'decoy':
                    self.remove(a)
        except Exception:
            self.ev.append({'a': 'Crash', 'why': 'watch ' + traceback.format_exc()})

    def write(self, p):
        c = simos.cur()
        if c is not None and c.idx > 0 and p not in self.decoys and not STATE.search(p):
            self.own.add(p)
        self.mine.add(p)
        e = {'a': 'Write', 'kind': self.kind(p), 'inside': p.startswith(self.out + os.sep), 'path': p[-60:]}
        if not self.ev or self.ev[-1] != e:
            self.ev.append(e)

    def remove(self, p):
        self.on = False
        if p in self.own and os.path.exists(p):
            with open(p) as f:
                self.content[p] = f.read()
        self.on = True
        self.ev.append({'a': 'Remove', 'kind': self.kind(p), 'path': p[-60:]})


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as h:
                out[p] = h.read()
    return out


def life(job, out, no, resume, body, sig=None):
    """one life of a run in the simulated operating system; body(cp, how, wait) runs in the main process at its end"""
    import cpnest
    from models import MODELS
    simos.reset()
    rnd = random.Random('%s/%s' % (job['seed'], no))
    box = {'how': None, 'over': -math.inf}

    def on(kind, proc, *x):
        # the iterations are over: the samplers may find better points for a moment still
        if kind == 'write' and 'cp' in box and x[0] is box['cp'].manager.logLmin and x[2] == math.inf and proc.idx == 0 and box['over'] == -math.inf:
            box['over'] = float(box['cp'].manager.logLmax._v)
    sched = simos.Sched(simos.make_policy(job['policy'], rnd), fuel=job.get('steps', 400000), on_event=on)
    sched.next_pid += 1000 * no
    simos.SCHED = sched
    simos._real['pyseed'](job['seed'] + no)
    simos._real['seed'](job['seed'] % 100000 + no)

    def main():
        nl = job['nlive'] if not resume or not job.get('nlive2') else job['nlive2']
        cp = cpnest.CPNest(MODELS[job['model']](), nlive=nl, poolsize=job.get('poolsize', 8), output=out, verbose=job['v'], seed=job['rseed'],
                           maxmcmc=job['maxmcmc'], nthreads=job['n'], nhamiltonian=job.get('nhmc', 0), nslice=job.get('nsl', 0), resume=bool(job.get('lives', 1) > 1),
                           prior_sampling=job['prior'])
        cp.NS.tolerance = job.get('tol', 0.3)
        box['cp'] = cp
        if job.get('marks'):
            logging.getLogger('cpnest.cpnest.CPNest').critical('mark-between-%d' % no)
            cp.user.__class__ = marked(cp.user.__class__, no)
        pts = [0]
        if sig:
            def hook(s):
                if s.current.idx == 0 and box['over'] == -math.inf and getattr(cp.NS, 'initialised', False) and all(q._p is not None for q in cp.process_pool):
                    pts[0] += 1
                    if pts[0] == sig:
                        s.procs[0].pending.append(15)
            sched.point_hook = hook
        try:
            cp.run()
            box['how'] = 'return'
        except SystemExit as e:
            box['how'] = 'exit'
        for q in cp.process_pool:
            if q._p is not None:
                sched.block(lambda: q._p.dead, ('join', q._p))
        body(cp, box['how'], box)
    box['reason'] = sched.run(main, wall=job.get('wall', 25))
    box['crashes'] = sched.crashes
    if box['reason'] == 'wall':
        box['at'] = getattr(sched, 'stuck_at', None)
    simos.SCHED = None
    return box


_marked = {}


def marked(base, no):
    """the model, leaving a message in the log when it is evaluated for the first time"""
    k = (base, no)
    if k not in _marked:
        class M(base):
            said = False

            def log_likelihood(self, p):
                if not M.said:
                    M.said = True
                    logging.getLogger('cpnest.cpnest.CPNest').critical('mark-inside-%d' % no)
                return super().log_likelihood(p)
        M.__name__ = M.__qualname__ = base.__name__ + 'Marked%d' % no
        globals()[M.__name__] = M
        _marked[k] = M
    return _marked[k]


def table(text):
    """Header and rows of a file written by savetxt"""
    lines = text.split('\n')
    head = lines[0].lstrip('#').split()
    return head, [[float(x) for x in l.split()] for l in lines[1:] if l.strip()]


def same(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(p == q or (p != p and q != q) for p, q in zip(x, y)) for x, y in zip(a, b))


def rows_of(arr):
    import numpy as np
    a = np.ma.getdata(arr)
    return [[float(x) for x in r] for r in a.ravel().tolist()] if a.dtype.names else [[float(x)] for x in a.ravel()]


def read(f):
    with open(f) as h:
        return h.read()


def near(text, x, digits):
    try:
        y = float(text)
    except ValueError:
        return False
    if not math.isfinite(x):
        return y == x or (x != x and y != y)
    return abs(y - x) <= 0.5000001 * 10 ** -digits + 1e-12 * abs(x)


def finish(ev, cp, W, job, over):
    """What a user finds at the end"""
    import numpy as np
    NS, o = cp.NS, cp.NS.output_folder
    fs = {'chain': NS.output_file, 'evidence': NS.evidence_file, 'header': os.path.join(o, 'header.txt'), 'log': os.path.join(o, 'cpnest.log'),
          'nested': os.path.join(o, 'nested_samples.dat'), 'posterior': os.path.join(o, 'posterior.dat'), 'insertion': os.path.join(o, 'insertion_indices.dat'),
          'prior': os.path.join(o, 'prior.dat'), 'mcmc': os.path.join(o, 'mcmc.dat')}
    mem = {'nested': getattr(cp, 'nested_samples', None), 'posterior': cp.posterior_samples, 'prior': cp.prior_samples, 'mcmc': cp.mcmc_samples}
    mem = {k: x for k, x in mem.items() if hasattr(x, 'dtype') and x.dtype.names}
    there = [k for k, f in fs.items() if os.path.isfile(f)]
    ev.append({'a': 'End', 'files': there, 'mem': sorted(mem), 'left': sum(os.path.exists(p) for p in W.own),
               'ins': 'insertion' in there or job['v'] < 2 or not len(NS.insertion_indices)})
    names = list(cp.user.names)
    pts = NS.nested_samples
    full = [[float(x) for x in p.values] + [float(p.logL), float(p.logP)] for p in pts]
    lines = read(fs['chain']).split('\n')
    head, body = lines[0].split(), [l.split() for l in lines[1:] if l.strip()]
    bad = 0
    for l, r in zip(body, full):
        try:
            v = [float(x) for x in l]
        except ValueError:
            bad += 1
            continue
        ok = len(v) == len(names) + 1 and v[:-1] == r[:-2] and (v[-1] == r[-2] or abs(v[-1] - r[-2]) <= 1e-6 * abs(r[-2]) or (v[-1] != v[-1] and r[-2] != r[-2]))
        bad += not ok
    ev.append({'a': 'Chain', 'cols': head == names + ['logL'], 'rows': len(body), 'n': len(pts), 'dev': bad})
    e = read(fs['evidence']).split('\n')
    e = e[1].split() if len(e) > 1 else []
    if len(e) != 3:
        e = ['nan'] * 3
    ev.append({'a': 'Evidence', 'z': near(e[0], float(NS.state.logZ), 5) and (job['prior'] or NS.logZ == NS.state.logZ), 'l': (max(r[-2] for r in full) if job['prior'] else over) - 0.6e-5 <= float(e[1]) <= float(NS.logLmax.value) + 0.6e-5,
               'h': near(e[2], float(NS.state.info), 2)})
    for n in ('nested', 'posterior', 'prior', 'mcmc'):
        if n in there and n in mem:
            h, r = table(read(fs[n]))
            ev.append({'a': 'Table', 'n': n, 'cols': h == list(mem[n].dtype.names), 'same': same(r, rows_of(mem[n]))})
    if 'insertion' in there:
        h = [float(x) for x in read(fs['insertion']).split()]
        ev.append({'a': 'Table', 'n': 'insertion', 'cols': True, 'same': h == [float(x) for x in NS.insertion_indices]})
    if 'nested' in mem:
        a = mem['nested']
        key = {n: k for k, n in enumerate(a.dtype.names)}
        got = [[r[key[n]] for n in names] + [r[key['logL']], r[key['logPrior']]] for r in rows_of(a)] if set(key) == set(names) | {'logL', 'logPrior'} else []
        ev.append({'a': 'Nested', 'same': same(got, full)})
    if 'posterior' in mem and 'nested' in mem:
        N = {}
        for r in rows_of(mem['nested']):
            N[repr(r)] = N.get(repr(r), 0) + 1
        part = list(mem['posterior'].dtype.names) == list(mem['nested'].dtype.names)
        for r in rows_of(mem['posterior']):
            N[repr(r)] = N.get(repr(r), 0) - 1
            part = part and N[repr(r)] >= 0
        ev.append({'a': 'Posterior', 'part': bool(part)})
    tmp = {'prior_samples': [], 'mcmc_chain': []}
    for p in sorted(W.own):
        for k in tmp:
            if os.path.basename(p).startswith(k) and (p in W.content or os.path.exists(p)):
                tmp[k].append(table(W.content[p] if p in W.content else read(p)))
    if 'prior' in mem:
        cols = list(mem['prior'].dtype.names)
        want = {}
        for h, rs in tmp['prior_samples'] + ([(list(mem['nested'].dtype.names), rows_of(mem['nested']))] if job['prior'] else []):
            for r in rs:
                d = dict(zip(h, r))
                k = repr([d.get(c) for c in cols])
                want[k] = want.get(k, 0) + 1
        whole = len(tmp['prior_samples']) >= job['n']
        got = {}
        for r in rows_of(mem['prior']):
            got[repr(r)] = got.get(repr(r), 0) + 1
        ev.append({'a': 'Prior', 'whole': bool(whole and all(got.get(k, 0) >= n for k, n in want.items())), 'only': all(want.get(k, 0) >= n for k, n in got.items())})
    if 'mcmc' in mem:
        cols = list(mem['mcmc'].dtype.names)
        sets = [{repr([dict(zip(h, r)).get(c) for c in cols]) for r in rs} for h, rs in tmp['mcmc_chain']]
        got = [repr(r) for r in rows_of(mem['mcmc'])]
        ev.append({'a': 'Mcmc', 'each': len(sets) == job['n'] and all(any(g in s for g in got) for s in sets), 'part': all(any(g in s for s in sets) for g in got)})


def output_run(job):
    prepare()
    top = tempfile.mkdtemp(prefix='cpv-out-')
    back = os.getcwd()
    sys.stderr = open(os.devnull, 'w')          # progress bars
    import time
    t0 = time.monotonic()
    ev = []
    t = {'cfg': {k: job[k] for k in ('v', 'prior', 'promised', 'handed')}, 'ev': ev, 'name': 'run-v%d%s-%r' % (job['v'], '-prior' if job['prior'] else '', job['dir']), 'job': job}
    try:
        cwd = os.path.join(top, 'cwd')
        os.makedirs(cwd)
        os.chdir(cwd)
        out = job['dir'] if job['rel'] else os.path.join(cwd, job['dir'])
        os.makedirs(out, exist_ok=True)
        other = os.path.join(cwd, 'other folder')
        os.makedirs(other)
        r = random.Random(job['seed'])
        decoys = []
        for d in (out, cwd, other, os.path.join(out, 'sub')):
            os.makedirs(d, exist_ok=True)
            for n in r.sample(DECOYS, 12) + (['prior_samples_12.dat', 'mcmc_chain_12.dat'] if d != out else []):
                with open(os.path.join(d, n), 'w') as f:
                    f.write('# %s\n%d %d\n' % (n, r.randrange(100), r.randrange(100)))
                decoys.append(os.path.join(d, n))
        before = snapshot(cwd)
        root = logging.getLogger('cpnest')
        W = Watch(out, decoys)
        W.ev = ev
        box = {}

        def body(cp, how, box):
            if how == 'return':
                W.on = False
                try:
                    finish(ev, cp, W, job, box['over'])
                finally:
                    W.on = True
        log = os.path.join(out, 'cpnest.log')
        for no in range(job['lives']):
            W.on = True
            logging.getLogger('cpnest').critical('mark-outside-%d' % no)
            sig = job['sigs'][no] if no < job['lives'] - 1 else None
            box = life(job, out, no, no > 0, body, sig)
            W.on = False
            if box['reason'] in ('wall', 'fuel') and not box['crashes']:
                ev.append({'a': 'Cut', 'why': str((box['reason'], box.get('at')))})         # too long a run: no verdict
                break
            if box['crashes'] or box['reason'] != 'all ended':
                ev.append({'a': 'Crash', 'why': str((box['reason'], box['crashes'], box.get('at')))[:1500]})
                break
            ev.append({'a': 'Handlers', 'n': sum(isinstance(h, logging.FileHandler) for n in [root] + [x for k, x in logging.Logger.manager.loggerDict.items()
                                                 if k.startswith('cpnest.') and isinstance(x, logging.Logger)] for h in n.handlers)})
            logging.getLogger('cpnest').critical('mark-outside-%d' % no)
            if job.get('marks'):
                text = read(log) if os.path.exists(log) else ''
                ev.append({'a': 'Log', 'there': os.path.exists(log), 'in': 'mark-inside-%d' % no in text or not reached(box), 'out': 'mark-outside' in text or 'mark-between' in text,
                           'kept': all('mark-inside-%d' % k in text for k in range(no))})
            if box['how'] == 'return':
                break
        after = snapshot(cwd)
        W.ev.append({'a': 'Decoys', 'ok': all(after.get(p) == before[p] for p in before), 'path': [p[-50:] for p in before if after.get(p) != before[p]][:3]})
        for p in after:
            q = os.path.realpath(p)
            if p not in before and not q.startswith(os.path.realpath(out) + os.sep):
                W.ev.append({'a': 'Write', 'kind': 'out', 'inside': False, 'path': p[-60:]})
        t['s'] = time.monotonic() - t0
        return t
    except Exception:
        ev.append({'a': 'Crash', 'why': 'harness: ' + traceback.format_exc()[-1500:]})
        raise
    finally:
        os.chdir(back)
        shutil.rmtree(top, ignore_errors=True)


def reached(box):
    return box['how'] == 'return'


def o_cfg(verbs, n, lives, decoys, defects=(), emit=False):
    q = lambda xs: ', '.join('"%s"' % x for x in xs)
    return cfg_file('CONSTANTS Samplers = {%s} Verbs = {%s} MaxLives = %d Decoys = {%s} Defects = {%s} EmitOn = %s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
                    'INVARIANT Safe Exist Handed Agree Whole Clean Emit\n' % (', '.join(map(str, range(1, n + 1))), ', '.join(map(str, verbs)), lives, q(decoys), q(defects),
                                                                              'TRUE' if emit else 'FALSE'))


def out_jobs(r, bs, k, marks=False):
    import ns_checks
    jobs = []
    dirs = DIRS[:]
    r.shuffle(dirs)
    for i in range(k):
        b = bs[i % len(bs)]
        d = ns_checks.fleet(r)
        if d.get('nhmc') and r.random() < 0.8:
            d.update(nsl=0, nhmc=0, poolsize=8)
        d.update(v=b['v'], prior=b['prior'], promised=b['promised'], handed=b['handed'], lives=b['lives'], dir=dirs[i % len(dirs)], rel=r.random() < 0.5,
                 seed=r.randrange(2 ** 31), rseed=r.randrange(1, 10 ** 6), policy=r.choice(['random0.3', 'random0.05', 'random0.8', 'main', 'samplers', 'round']), marks=marks,
                 model=r.choice(['Gauss2', 'Gauss1', 'Gauss3'] + (['InfPart', 'NanPart'] if not d.get('nhmc') else [])), tol=r.choice([0.3, 1.0, 3.0]), sigs=[r.choice([5, 60, 300, 1200]) for _ in range(b['lives'])])
        d.pop('fuel', None)
        d['steps'] = 500000 if not d.get('nhmc') else 40000
        jobs.append(d)
    return jobs


def behaviours(chk):
    dec = ('old', 'other')
    chk.model(common.tlc('Outputs', o_cfg((0, 1, 2, 3), tier(2, 3), 3, dec)), 'Outputs, exhaustively')
    for d in ('glob', 'early', 'wrongarray', 'lost'):
        common.tlc('Outputs', o_cfg((0, 3), 2, 1, dec, (d,)), ok_rc=(12,))
    bs = generate('Outputs', o_cfg((0, 1, 2, 3), 1, 2, (), (), True))
    return bs


def c19(chk):
    prepare()
    bs = behaviours(chk)
    r = rng('C19')
    k = tier(300, 3000)
    order = []
    while len(order) < k:
        x = bs[:]
        r.shuffle(x)
        order += x
    run_all(chk, 'OutputsTrace', output_run, out_jobs(r, order[:k], k), 'C19')
    chk.assumptions.append('whole runs in the simulated operating system; file operations through the audit events of the interpreter and snapshots of the folders')


CHECKS = {'C19': c19}


def c21(chk):
    prepare()
    bs = behaviours(chk)
    r = rng('C21runs')
    k = tier(48, 400)
    run_all(chk, 'OutputsTrace', output_run, out_jobs(r, [r.choice(bs) for _ in range(k)], k, marks=True), 'C21')


def post_run(job):
    """Posterior samples of whole runs, drawn again and again"""
    import numpy as np
    from posterior_checks import reference
    from proposal_checks import crash
    prepare()
    top = tempfile.mkdtemp(prefix='cpv-post-')
    sys.stderr = open(os.devnull, 'w')
    ev, cfg = [], {'pos': [], 'best': [], 'tol': 1000}
    try:
        N = job['nlive']
        for no in range(job['lives']):
            if no and not os.path.exists(os.path.join(top, 'nested_sampler_resume.pkl')):
                N = job['nlive2']

            def body(cp, how, box):
                if how != 'return':
                    return
                nest = cp.get_nested_samples(filename=None)
                names = list(nest.dtype.names)
                num = {}
                for i, q in enumerate(nest):
                    num.setdefault(repr(q.tolist()), []).append(i + 1)

                def numbers(post):
                    # equal nested samples are told apart by their order
                    n, out = {}, []
                    for q in post:
                        k = repr(q.tolist())
                        n[k] = n.get(k, 0) + 1
                        out.append(num[k][min(n[k], len(num[k])) - 1] if k in num else 0)
                    return out
                w, z = reference(N, [float(x) for x in nest['logL']])
                p = np.exp((w - max(w)).astype(float))
                cfg['pos'] = [bool(x > -math.inf) for x in w]
                cfg['best'] = [[i + 1 for i in range(len(w)) if w[i] >= max(w) - 1e-9 * max(1, abs(z))]]
                cnt, M = np.zeros(len(w)), job['draws']

                def go():
                    for k in range(M):
                        post = cp.get_posterior_samples(filename=None)
                        rows = numbers(post)
                        if k < 10:
                            ev.append({'a': 'Draw', 'rows': rows})
                        for i in rows:
                            cnt[i - 1] += 1
                    rows = numbers(cp.posterior_samples)
                    ev.append({'a': 'Draw', 'rows': rows})
                    for b in np.array_split(np.arange(len(w)), min(8, len(w))) if len(num) == len(w) else []:
                        m, sd = M * p[b].sum(), math.sqrt(max(0.0, M * (p[b] * (1 - p[b])).sum()))
                        ev.append({'a': 'Freq', 'k': int(cnt[b].sum()), 'lo': int(m - 6 * sd - 3), 'hi': int(m + 6 * sd + 3)})
                crash(ev, go)
            box = life(job, os.path.join(top, ''), no, no > 0, body, job['sigs'][no] if no < job['lives'] - 1 else None)
            if box['crashes']:
                ev.append({'a': 'Crash', 'why': str(box['crashes'])[:1000]})
            if box['how'] == 'return' or box['crashes'] or box['reason'] != 'all ended':
                break
        return {'cfg': cfg, 'ev': ev, 'name': 'posterior-of-run-%d' % job['no'], 'job': job}
    finally:
        shutil.rmtree(top, ignore_errors=True)


def c18(chk):
    prepare()
    r = rng('C18runs')
    jobs = []
    for k in range(tier(48, 400)):
        n = r.choice([1, 2, 3])
        N = r.randrange(n + 1, 12)
        jobs.append({'n': n, 'nlive': N, 'nlive2': r.choice([N * 3, N + 7, max(n + 1, N // 3)]), 'lives': r.choice([1, 2, 2, 3]), 'poolsize': r.choice([4, 8, 12]), 'maxmcmc': 12,
                     'v': 0, 'prior': False, 'model': r.choice(['Gauss2', 'Gauss1', 'Gauss3', 'Stairs']), 'seed': r.randrange(2 ** 31), 'rseed': r.randrange(1, 10 ** 6),
                     'policy': r.choice(['random0.3', 'main', 'samplers', 'round']), 'tol': r.choice([0.05, 0.3]), 'sigs': [r.choice([30, 100, 300]) for _ in range(3)],
                     'draws': tier(250, 1500), 'no': k})
    run_all(chk, 'WeightsTrace', post_run, jobs, 'C18')


CHECKS.update({'C21': c21, 'C18': c18})
