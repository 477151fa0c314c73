"""The fleet of samplers: spec/Fleet.tla generates what is asked for, spec/FleetTrace.tla judges what the real code starts"""
import json, math, os, random, shutil, subprocess, sys, tempfile, traceback
import boot, common, nsrun, simos
from common import cfg_file, generate, rng, tier
from proposal_checks import run_all

LOG = {}


def prepare():
    nsrun.prepare()


class Tokens:
    def __init__(self):
        self.t = {}

    def __call__(self, x):
        return self.t.setdefault(x, len(self.t) + 1)


def pool_of(obj):
    return [tuple(float(v) for v in p.values) + (float(p.logL), float(p.logP)) for p in obj.evolution_points]


def kind_of(obj):
    import cpnest.sampler as S
    return 'hmc' if isinstance(obj, S.HamiltonianMonteCarloSampler) else 'sli' if isinstance(obj, S.SliceSampler) else 'mhs' if isinstance(obj, S.MetropolisHastingsSampler) else 'none'


def tree(p, seen=None):
    """the proposal objects reachable from this one"""
    from cpnest.proposal import Proposal
    seen = {} if seen is None else seen
    if isinstance(p, (list, tuple)):
        for x in p:
            tree(x, seen)
    elif isinstance(p, Proposal) and id(p) not in seen:
        seen[id(p)] = p
        for x in list(vars(p).values()):
            tree(x, seen)
    return seen


_classes = {}


def classes():
    """Proposals of a user, which note what they draw"""
    import cpnest.proposal as P
    import numpy as np
    if not _classes:
        def noted(base):
            class Noted(base):
                def get_sample(self, *a, **k):
                    _note[0](('np', np.random.random()), ('py', random.random()))
                    return super().get_sample(*a, **k)

                def get_direction(self, *a, **k):
                    _note[0](('np', np.random.random()), ('py', random.random()))
                    return super().get_direction(*a, **k)
            Noted.__name__ = Noted.__qualname__ = 'Noted' + base.__name__
            globals()[Noted.__name__] = Noted
            return Noted
        for k, b in (('mhs', P.DefaultProposalCycle), ('hmc', P.HamiltonianProposalCycle), ('sli', P.EnsembleSliceProposalCycle)):
            _classes[k] = noted(b)
    return _classes


def model():
    from models import Gauss2
    if 'FleetModel' not in globals():
        class FleetModel(Gauss2):
            """A model which notes the points it draws from the prior"""
            def new_point(self):
                p = super().new_point()
                _note[0](('pt',) + tuple(p.values))
                return p
        FleetModel.__qualname__ = 'FleetModel'
        globals()['FleetModel'] = FleetModel
    return globals()['FleetModel']()


def pkind_of(obj, mode):
    import cpnest.proposal as P
    c = _classes if mode != 'default' else {'mhs': P.DefaultProposalCycle, 'hmc': P.HamiltonianProposalCycle, 'sli': P.EnsembleSliceProposalCycle}
    for k, x in c.items():
        if isinstance(obj.proposal, x):
            return k
    return 'none'


def parent_object(sim):
    t = sim._target
    for x in [getattr(t, '__self__', None)] + list(sim._args) + list(sim._kwargs.values()):
        if hasattr(x, 'produce_sample'):
            return x


def fleet_run(job):
    prepare()
    import cpnest
    top = tempfile.mkdtemp(prefix='cpv-fleet-')
    sys.stderr = open(os.devnull, 'w')
    tok, ev = Tokens(), []
    mode = job['mode']
    MAXD = 12
    log = {}

    def note(*xs):
        c = simos.cur()
        if c is not None and c.idx:
            d = log.setdefault(c.idx, {'v': [], 'pts': []})
            for x in xs:
                k = 'pts' if x[0] == 'pt' else 'v'
                if len(d[k]) < (MAXD if k == 'pts' else 2 * MAXD):
                    d[k].append(tok(x))
    cs = classes() if mode != 'default' else None
    _note[0] = note

    rnd = random.Random(job['seed'])
    try:
        for no, q in enumerate(job['lives']):
            log.clear()
            old = os.path.exists(os.path.join(top, 'nested_sampler_resume.pkl'))
            simos.reset()
            n, h, s = q['n'], q['h'], q['s']
            box = {}

            def on(kind, proc, *x):
                if kind == 'start' and 'cp' in box:
                    box.setdefault('started', []).append((x[0], parent_object(x[0])))
            sched = simos.Sched(simos.make_policy(job['policy'], rnd), fuel=3000000, on_event=on)
            sched.next_pid += 1000 * no
            simos.SCHED = sched
            simos._real['pyseed'](job['seed'] + no)
            simos._real['seed'](job['seed'] % 100000 + no)

            def hook(sc):
                if box.get('sent') or sc.current.idx != 0 or len(box.get('started', ())) < n or any(x[0]._p is None for x in box['started']):
                    return
                if not job['early'] and getattr(box['cp'].NS, 'iteration', 1) < 1:
                    return
                for x, _ in box['started']:
                    o, d = x._p.obj, log.get(x._p.idx, {'v': []})
                    if not getattr(o, 'initialised', False) or mode != 'default' and len(d['v']) < MAXD:
                        return
                box['sent'] = True
                sc.procs[0].pending.append(15)

            def main():
                props = None if cs is None else dict(cs) if mode == 'dict' else [cs['mhs'], cs['hmc'], cs['sli']]
                cp = cpnest.CPNest(model(), nlive=max(q['n'] for q in job['lives']) + 2 + job['more'], poolsize=24 if h else 8, output=top, verbose=0, seed=job['cseed'], maxmcmc=5, nthreads=n, nhamiltonian=h,
                                   nslice=s, resume=True, proposals=props)
                cp.NS.tolerance = 1e-6
                box['cp'] = cp
                try:
                    cp.run()
                    box['how'] = 'return'
                except SystemExit:
                    box['how'] = 'exit'
                for x in cp.process_pool:
                    if x._p is not None:
                        sched.block(lambda: x._p.dead, ('join', x._p))
            sched.point_hook = hook

            # what a process has when it starts
            born = {}

            def snap(kind, proc, *x):
                on(kind, proc, *x)
                if proc is not None and proc.idx and proc.idx not in born:
                    born[proc.idx] = True
            sched.on_event = snap
            orig = sched.spawn

            def spawn(name, body, obj=None, parent=None):
                p = orig(name, body, obj, parent)
                if obj is not None and box.get('started'):
                    par = box['started'][-1][1]
                    m = {'a': 'Member', 'i': p.idx, 'kind': kind_of(obj), 'chan': tok(('chan', obj.producer_pipe.pair)) if hasattr(getattr(obj, 'producer_pipe', None), 'pair') else 0,
                         'file': tok(('file', os.path.realpath(obj.resume_file))), 'seed': int(obj.seed), 'props': sorted(tok(('obj', no, x)) for x in tree(par.proposal)),
                         'pkind': pkind_of(obj, mode), 'new': not obj.initialised, 'pool': [tok(('pool',) + x) for x in pool_of(obj)] if obj.initialised else []}
                    box.setdefault('mem', []).append(m)
                return p
            sched.spawn = spawn
            reason = sched.run(main, wall=15)
            simos.SCHED = None
            cp = box.get('cp')
            chans = [tok(('chan', c.pair)) for c in cp.manager.consumer_pipes] if cp else []
            ev.append({'a': 'Ask', 'n': n, 'h': h, 's': s, 'mode': mode, 'chans': chans, 'old': old})
            ev += box.get('mem', [])
            if reason in ('fuel', 'wall') and not sched.crashes:
                ev.append({'a': 'Cut', 'why': str((reason, getattr(sched, 'stuck_at', None)))})
                break
            if sched.crashes or reason != 'all ended':
                ev.append({'a': 'Crash', 'why': str((reason, sched.crashes))[:1500]})
                break
            ev.append({'a': 'Started'})
            for i in sorted(log):
                if i:
                    ev.append({'a': 'Draws', 'i': i, 'v': log[i]['v'], 'pts': log[i]['pts']})
            if box['how'] == 'return':
                break
            for x, _ in box['started']:
                o = x._p.obj
                ev.append({'a': 'Saved', 'i': x._p.idx, 'file': tok(('file', os.path.realpath(o.resume_file))), 'there': os.path.isfile(o.resume_file),
                           'pool': [tok(('pool',) + y) for y in pool_of(o)]})
        return {'cfg': {'mode': mode}, 'ev': ev, 'name': 'fleet-%s-%s' % (mode, '-'.join('%d.%d.%d' % (q['n'], q['h'], q['s']) for q in job['lives'])), 'job': job}
    finally:
        shutil.rmtree(top, ignore_errors=True)


_note = [None]


def pool_in(fn):
    """What is in a state file of a sampler, read by an interpreter of its own"""
    code = "import sys; sys.path.insert(0, %r)\nimport realrun, nsrun, json, logging\nfrom cpnest.sampler import Sampler\nfrom fleet_checks import pool_of\n" \
           "o = Sampler.resume(%r, nsrun.FakeManager(1), realrun.RealModel())\nprint(json.dumps(pool_of(o)))" % (os.path.dirname(os.path.abspath(__file__)), fn)
    return code


def real_life(top, no, cfg, sig, wait):
    """one life with real processes; sig(pids): send the signals"""
    import signal, time
    notes = os.path.join(top, 'notes%d' % no)
    os.makedirs(notes)
    job = dict(cfg, notes=notes, out=os.path.join(top, 'out'))
    with open(os.path.join(top, 'job%d.json' % no), 'w') as f:
        json.dump(job, f)
    env = dict(os.environ, CPNEST_REPO=boot.REPO)
    p = subprocess.Popen([sys.executable, '-c', 'import sys; sys.path.insert(0, %r); import realrun; realrun.main()' % os.path.dirname(os.path.abspath(__file__)), os.path.join(top, 'job%d.json' % no)], env=env,
                         stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(os.path.join(top, 'err%d' % no), 'w'), start_new_session=True)
    end = simos._real['time']() + wait if simos._real else time.time() + wait
    now = simos._real.get('time', time.time)
    nap = simos._real.get('sleep', time.sleep)
    sent = False
    try:
        while p.poll() is None and now() < end:
            nap(0.02)
            if not sent and sig:
                got = [f for f in os.listdir(notes) if f.endswith('.txt')]
                if len(got) >= cfg['n'] and all(sum(1 for _ in open(os.path.join(notes, f))) >= 12 for f in got) and \
                        all(os.path.exists(os.path.join(notes, 'members.json')) for _ in (1,)):
                    nap(cfg.get('pause', 0.2))
                    sent = True
                    sig(p.pid)
        slow = p.poll() is None
        # whoever is still there, a moment later
        left = 0
        if not slow:
            for _ in range(150):
                left = alive(p.pid)
                if not left:
                    break
                nap(0.02)
        r = {'code': p.poll(), 'slow': slow, 'left': left, 'notes': {}, 'err': open(os.path.join(top, 'err%d' % no)).read()[-1500:]}
        for f in os.listdir(notes):
            if f.endswith('.txt'):
                r['notes'][f[:-4]] = [l.split() for l in open(os.path.join(notes, f))]
            elif f.endswith('.json'):
                r[f[:-5]] = json.load(open(os.path.join(notes, f)))
        return r
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()


def alive(pgid):
    """processes of this group that have not ended"""
    n = 0
    for d in os.listdir('/proc'):
        if d.isdigit():
            try:
                if os.getpgid(int(d)) == pgid:
                    n += open('/proc/%s/stat' % d).read().rsplit(')', 1)[1].split()[0] != 'Z'
            except (ProcessLookupError, FileNotFoundError, PermissionError):
                pass
    return n


def real_fleet(job):
    """The same with real processes"""
    import signal
    top = tempfile.mkdtemp(prefix='cpv-real-')
    tok, ev = Tokens(), []
    kill = simos._real.get('kill', os.kill)
    try:
        for no, q in enumerate(job['lives']):
            old = os.path.exists(os.path.join(top, 'out', 'nested_sampler_resume.pkl'))
            cfg = {'n': q['n'], 'h': q['h'], 's': q['s'], 'nlive': max(x['n'] for x in job['lives']) + 4, 'poolsize': 24 if q['h'] else 8, 'cseed': job['cseed'], 'maxmcmc': 5, 'tol': -1.0}
            r = real_life(top, no, cfg, lambda pid: kill(pid, signal.SIGTERM), 60)
            if r['slow']:
                ev.append({'a': 'Cut', 'why': 'too slow'})
                break
            m = r.get('members')
            if m is None or r['code'] not in (130, 0):
                ev.append({'a': 'Crash', 'why': str((r['code'], r['err']))})
                break
            ev.append({'a': 'Ask', 'n': q['n'], 'h': q['h'], 's': q['s'], 'mode': 'dict', 'chans': m['chans'], 'old': old})
            for x in m['mem']:
                ev.append(dict(x, file=tok(('file', x['file'])), pool=[tok(('pool',) + tuple(y)) for y in x['pool']], props=[tok(('obj', no, y)) for y in x['props']],
                               chan=x['chan']))
            ev.append({'a': 'Started'})
            for i, (pid, ls) in enumerate(sorted(r['notes'].items())):
                ev.append({'a': 'Draws', 'i': i + 1, 'v': [tok(('np' if k == 0 else 'py', x)) for l in ls if l[0] == 'v' for k, x in enumerate(l[1:])][:24],
                           'pts': [tok(('pt',) + tuple(l[1:])) for l in ls if l[0] == 'pt'][:12]})
            if r['code'] == 0:
                break
            for x in m['mem']:
                o = subprocess.run([sys.executable, '-c', pool_in(x['file']), os.path.join(top, 'job%d.json' % no)], capture_output=True, text=True, timeout=60)
                ev.append({'a': 'Saved', 'i': x['i'], 'file': tok(('file', x['file'])), 'there': o.returncode == 0, 'err': o.stderr[-300:],
                           'pool': [tok(('pool',) + tuple(y)) for y in json.loads(o.stdout)] if o.returncode == 0 else []})
        return {'cfg': {'mode': 'real'}, 'ev': ev, 'name': 'real-fleet-%s' % '-'.join('%d.%d.%d' % (q['n'], q['h'], q['s']) for q in job['lives']), 'job': job}
    finally:
        shutil.rmtree(top, ignore_errors=True)


def f_cfg(n, lives, seeds, modes, defects=(), emit=False):
    q = lambda xs: ', '.join('"%s"' % x for x in xs)
    return cfg_file('CONSTANTS MaxN = %d MaxLives = %d Seeds = {%s} Modes = {%s} Defects = {%s} EmitOn = %s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
                    'INVARIANT Count Kinds Channels Files OwnSeed Proposals Streams OfItsKind Emit\n'
                    % (n, lives, ', '.join(map(str, seeds)), q(modes), q(defects), 'TRUE' if emit else 'FALSE'))


SEEDS = (0, 1, 1234, 65535)


def c20(chk):
    prepare()
    chk.model(common.tlc('Fleet', f_cfg(tier(5, 7), 2, (0, 7), ('default',))), 'Fleet, exhaustively')
    for d in ('kindseed', 'inherit', 'fileclash', 'pipeclash', 'sharedproposal', 'drop'):
        common.tlc('Fleet', f_cfg(3, 2, (7,), ('default',), (d,)), ok_rc=(12,))
    bs = generate('Fleet', f_cfg(tier(4, 6), 2, (0,), ('default',), (), True))
    r = rng('C20')
    jobs = []
    r.shuffle(bs)
    # all first lives (each at least once), and as many second ones as fit
    seen, picked = set(), []
    for b in bs:
        k = json.dumps(b['lives'][0])
        if k not in seen:
            seen.add(k)
            picked.append(b)
    bs = picked + [b for b in bs if b not in picked][:tier(30, 400)]
    for no, b in enumerate(bs):
        for mode in (('default', 'dict') if no % 2 else ('list', 'dict'))[:tier(2, 2)]:
            jobs.append({'lives': b['lives'], 'mode': mode, 'seed': r.randrange(2 ** 31), 'cseed': r.choice(SEEDS), 'more': r.randrange(4), 'early': r.random() < 0.15,
                         'policy': r.choice(['random0.3', 'random0.05', 'samplers', 'round'] if not any(q['h'] for q in b['lives']) else ['random0.3', 'random0.8', 'main', 'round'])})
    run_all(chk, 'FleetTrace', fleet_run, jobs, 'C20')
    real = [b for b in bs if len(b['lives']) == 2 and b['lives'][0]['n'] > 1 and b['lives'][1]['n'] > 1]
    jobs = [{'lives': b['lives'], 'cseed': r.choice(SEEDS)} for b in real[:tier(8, 40)]]
    run_all(chk, 'FleetTrace', real_fleet, jobs, 'C20')
    chk.assumptions.append('resumed with samplers of the same kinds at the same places; user-supplied proposals note what the generators of their process yield')


CHECKS = {'C20': c20}
