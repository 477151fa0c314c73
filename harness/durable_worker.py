"""Checkpoints of the real code, stopped before every file operation (gate.c, preloaded), killed there, and resumed: python durable_worker.py job.json out.json

A scenario: members (kinds), the way each member comes to save, and operations of spec/Durable.tla. Events of its trace:
Begin (member, tok), Look (toks: what a resume would find if everything were killed now), Fault (member), Done (member), Resume (toks)."""
import ctypes, hashlib, json, mmap, os, shutil, signal, sys, tempfile, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot
boot.install()
from ctypes import c_int
import multiprocessing as mp
import numpy as np
import random
from multiprocessing.managers import SyncManager
SyncManager.start = lambda self, *a, **k: None         # no server process: nothing here needs it
import cpnest
import cpnest.cpnest as C
from cpnest.NestedSampling import OrderedLivePoints
from models import MODELS
boot.quiet()
import logging
logging.getLogger('cpnest').addHandler(logging.NullHandler())
logging.getLogger('cpnest').propagate = False
GATE = ctypes.CDLL(None)
ORDER = ['mhs', 'hmc', 'sli']


class Hung(Exception):
    pass


def point(p):
    return None if p is None else (tuple(float(x) for x in p.values), float(p.logL), float(p.logP))


def state_of(kind, o):
    """What of the member's state a resume has to bring back"""
    if kind == 'ns':
        return (o.iteration, o.initialised, None if o.params is None else [point(p) for p in o.params], [point(p) for p in o.nested_samples], list(map(float, o.insertion_indices)),
                float(o.logLmin.value), float(o.state.logZ), [float(x) for x in o.state.log_vols], [float(x) for x in o.state.logLs])
    return (o.initialised, [point(p) for p in o.evolution_points], [point(p) for p in o.samples], float(o.Nmcmc_exact), int(o.Nmcmc))


class Scenario:
    def __init__(self, job):
        self.j, self.kinds, self.n = job, job['kinds'], len(job['kinds'])
        self.ev, self.ids, self.ops = [], {}, []
        self.count = [0] * self.n            # stops of the last complete checkpoint of each member
        self.kids = {}
        self.cache = {}
        self.looks = 0

    def tok(self, kind, o):
        s = state_of(kind, o)
        if kind == 'ns' and not o.initialised and o.iteration == 0 and not o.nested_samples or kind != 'ns' and not o.initialised and not o.evolution_points:
            return 0
        h = hashlib.sha256(repr((kind, s)).encode()).hexdigest()
        return self.ids.setdefault(h, len(self.ids) + 1)

    def build(self, d):
        cnt = [self.kinds.count(k) for k in ORDER]
        return C.CPNest(MODELS[self.j['model']](), nlive=self.j['nlive'], poolsize=self.j['poolsize'], output=d, verbose=self.j['verbose'], seed=self.j['seed'],
                        maxmcmc=self.j['maxmcmc'], nthreads=max(1, sum(cnt)), nhamiltonian=cnt[1], nslice=cnt[2], resume=True)

    def members(self, cp):
        """The objects of this scenario's members, in its order"""
        idx = {'ns': 0, 'mhs': 0, 'hmc': self.kinds.count('mhs'), 'sli': self.kinds.count('mhs') + self.kinds.count('hmc')}
        out = []
        for k in self.kinds:
            if k == 'ns':
                out.append(cp.NS)
                continue
            q = cp.process_pool[idx[k]]
            idx[k] += 1
            out.append(next(x for x in [getattr(q._target, '__self__', None)] + list(q._args) + list(q._kwargs.values()) if hasattr(x, 'produce_sample')))
        return out

    def load(self, d):
        try:
            ms = self.members(self.build(d))
            return [self.tok(k, o) for k, o in zip(self.kinds, ms)], ''
        except Exception:
            return None, traceback.format_exc()[-600:]

    def evolve(self, m):
        """The member goes on with its work: a state of its own, not seen before"""
        k, o = self.kinds[m], self.ms[m]
        if k == 'ns':
            if not o.initialised:
                o.params = OrderedLivePoints([self.fresh(o.model) for _ in range(o.Nlive)])
                o.initialised = True
            for _ in range(self.j['grow']):
                p = self.fresh(o.model)
                o.iteration += 1
                o.nested_samples.append(p)
                o.insertion_indices.append(np.random.random())
                o.state.increment(p.logL)
            o.logLmin.value = p.logL
        else:
            if not o.initialised:
                o.reset()
                o.counter = 1
            for _ in range(3):
                next(o.yield_sample(-np.inf))

    def fresh(self, model):
        p = model.new_point()
        p.logP, p.logL = model.log_prior(p), model.log_likelihood(p)
        return p

    # ---------------------------------------------------------------- one checkpoint in a process of its own
    def start(self, m):
        k, o = self.kinds[m], self.ms[m]
        way = self.j['ways'][m]
        shared = mmap.mmap(-1, 8)
        mode = ctypes.c_int.from_buffer(shared)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code, note = 9, ''
            try:
                try:
                    os.close(r)
                    for s in (signal.SIGTERM, signal.SIGALRM):
                        signal.signal(s, C.sighandler)
                    self.child(k, o, way, w, mode)
                    code = 0
                finally:
                    for s in (signal.SIGTERM, signal.SIGALRM):
                        signal.signal(s, signal.SIG_IGN)
            except SystemExit:
                code = 0
            except BaseException as e:
                note = '! %s %s' % (type(e).__name__, str(e)[:200].replace('\n', ' | '))
            finally:
                mode.value = 2
                os.write(w, (note + '\n').encode())
                os._exit(code)
        os.close(w)
        self.kids[m] = {'pid': pid, 'r': r, 'mode': mode, 'stops': 0, 'fault': False, 'shared': shared}
        self.wait(m)

    def child(self, k, o, way, w, mode):
        arm = lambda: GATE.gate_arm(self.dir.encode(), w, ctypes.byref(mode))
        if k == 'ns':                        # what it sends meanwhile is not for the samplers of this process
            self.apart = [mp.Pipe() for _ in o.manager.consumer_pipes]
            o.manager.consumer_pipes[:] = [a for a, b in self.apart]
        if way == 'direct' or k == 'ns' and way == 'periodic' and not hasattr(type(o), 'consume_sample'):
            arm()
            o.checkpoint()
        elif way == 'flag':
            o.manager.checkpoint_flag = mp.Value(c_int, 1)
            arm()
            o.produce_sample()
        elif way == 'signal':
            # the signal arrives while it waits for the other side
            arm()
            signal.setitimer(signal.ITIMER_REAL, 0.03)
            if k == 'ns':
                o.nested_sampling_loop()
            else:
                def asleep(*a):
                    while True:
                        time.sleep(0.01)
                type(o).yield_sample = asleep
                o.produce_sample()
        elif k == 'ns':
            o.manager.periodic_checkpoint_interval = -1.0
            left = [1]
            def consume(*a):
                if not left.pop():
                    raise C.CheckPoint()
                left.append(0)
            type(o).consume_sample = consume
            arm()
            o.nested_sampling_loop()
        else:
            pipe = [c for c, p in zip(o.manager.consumer_pipes, o.manager.producer_pipes) if p is o.producer_pipe][0]
            pipe.send('checkpoint')
            if way == 'periodic':
                o.manager.periodic_checkpoint_interval = -1.0
            arm()
            o.produce_sample()

    def wait(self, m):
        """Until the member stops before its next file operation or ends; True while it is there"""
        c = self.kids[m]
        t0 = time.monotonic()
        while True:
            p, st = os.waitpid(c['pid'], os.WUNTRACED | os.WNOHANG)
            if p:
                break
            if time.monotonic() - t0 > 60:
                os.kill(c['pid'], signal.SIGKILL)
                raise Hung('a checkpoint did not end')
            time.sleep(0.0003)
        if os.WIFSTOPPED(st):
            c['stops'] += 1
            return True
        lines = b''
        while True:
            x = os.read(c['r'], 65536)
            if not x:
                break
            lines += x
        os.close(c['r'])
        del self.kids[m]
        if len(self.ops) < 40:
            self.ops += [self.kinds[m] + ' ' + l.split(' ')[0] for l in lines.decode(errors='replace').splitlines() if l]
        ok = os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0
        if c['fault']:
            pass
        elif ok:
            self.count[m] = c['stops']
            self.put('Done', m=m + 1)
        else:
            self.put('Failed', m=m + 1, note=lines.decode(errors='replace').splitlines()[-1:])
        return False

    def step(self, m, sig=None):
        c = self.kids[m]
        if sig:
            os.kill(c['pid'], sig)
        os.kill(c['pid'], signal.SIGCONT)
        return self.wait(m)

    def look(self):
        """What a resume would find if everything were killed right now"""
        h = hashlib.sha256()
        for f in sorted(os.listdir(self.dir)):
            if f.endswith('.log'):
                continue
            with open(os.path.join(self.dir, f), 'rb') as g:
                h.update(f.encode() + b'\0' + g.read() + b'\0')
        h = h.digest()
        if h not in self.cache:
            d = os.path.join(self.j['scratch'], 'look')
            shutil.copytree(self.dir, d)
            self.cache[h] = self.load(d)
            shutil.rmtree(d)
            self.looks += 1
        t, err = self.cache[h]
        self.put('Look', toks=t if t is not None else [-1] * self.n, note=err)

    def put(self, a, **k):
        self.ev.append(dict(a=a, **k))

    def new(self):
        self.cp = self.build(self.dir)
        self.ms = self.members(self.cp)

    def run(self):
        self.dir = os.path.join(self.j['scratch'], 'out')
        np.random.seed(self.j['seed'])
        random.seed(self.j['seed'])
        try:
            self.new()
            done = [0] * self.n
            for op in self.j['ops']:
                m = op['m'] - 1
                if op['op'] == 'begin':
                    self.evolve(m)
                    done[m] = 0
                    self.put('Begin', m=m + 1, tok=self.tok(self.kinds[m], self.ms[m]))
                    self.start(m)
                    self.look()
                elif op['op'] == 'step':
                    done[m] += 1
                    if m not in self.kids:
                        continue
                    parts = self.j['parts'] + 2
                    k = self.count[m] or self.j['guess']
                    to = 10 ** 6 if done[m] >= parts else 1 + -(-done[m] * k // parts)
                    while m in self.kids and self.kids[m]['stops'] < to:
                        self.step(m)
                        self.look()
                elif op['op'] == 'each':         # one stop exactly
                    if m in self.kids:
                        self.step(m)
                elif op['op'] == 'resume':
                    for x in list(self.kids):    # whoever is left (its steps have taken it less far than the specification's) ends with the rest
                        self.fault(x, 'kill')
                    try:
                        self.new()
                        t, err = [self.tok(k, o) for k, o in zip(self.kinds, self.ms)], ''
                    except Exception:
                        t, err = None, traceback.format_exc()[-600:]
                    self.put('Resume', toks=t if t is not None else [-1] * self.n, note=err)
                    if t is None:
                        break
                elif m in self.kids:
                    self.fault(m, op['op'])
                    self.look()
        except Hung as e:
            self.put('Failed', m=0, note=[str(e)])
        finally:
            for c in self.kids.values():
                os.kill(c['pid'], signal.SIGKILL)
                os.waitpid(c['pid'], 0)
            shutil.rmtree(self.dir, ignore_errors=True)
        return {'name': self.j['name'], 'cfg': {'n': self.n, 'ns': self.kinds.index('ns') + 1 if 'ns' in self.kinds else 0}, 'ev': self.ev, 'looks': self.looks, 'sys': self.ops,
                'counts': self.count, 'job': {k: v for k, v in self.j.items() if k != 'scratch'}}

    def fault(self, m, how):
        c = self.kids[m]
        c['fault'] = True
        self.put('Fault', m=m + 1, how=how)
        if how == 'kill':
            os.kill(c['pid'], signal.SIGKILL)
            os.kill(c['pid'], signal.SIGCONT)
            self.wait(m)
        elif how == 'full':
            c['mode'].value = 1
            self.step(m)
        else:
            self.step(m, signal.SIGTERM)


def main():
    with open(sys.argv[1]) as f:
        jobs = json.load(f)
    out = []
    for j in jobs:
        d = tempfile.mkdtemp(prefix='dur-', dir=os.path.dirname(os.path.abspath(sys.argv[2])))
        try:
            out.append(Scenario(dict(j, scratch=d)).run())
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with open(sys.argv[2] + '.t', 'w') as f:
        json.dump(out, f)
    os.rename(sys.argv[2] + '.t', sys.argv[2])


main()
