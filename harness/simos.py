"""A simulated operating system for cpnest: processes, pipes, shared values, signals and time.

Every process is a thread, and exactly one of them runs at a time. Control changes hands only at operations on shared objects
(and nowhere else), as decided by a seeded policy, so that a run is reproducible and every interleaving of the shared
operations can be produced. `patch()` replaces the parts of the standard library that cpnest uses and must run before
cpnest is imported. One scheduler runs per (forked) operating-system process.
"""
import collections, copy, ctypes, io, os, pickle, random, sys, threading, time, traceback
from multiprocessing.reduction import ForkingPickler

_real = {}
SCHED = None          # the scheduler of this process, or None: then the patched functions behave as the originals
PID0 = 100000


class SimKilled(BaseException):
    pass


class Proc:
    def __init__(self, sched, idx, name):
        self.sched, self.idx, self.name = sched, idx, name
        self.pid = sched.next_pid
        sched.next_pid += 1
        self.sem = threading.Semaphore(0)
        self.cond = None          # not None: blocked until cond() holds
        self.what = None
        self.dead = False
        self.exitcode = None
        self.handlers = {}
        self.pending = []
        self.killed = False
        self.steps = 0
        self.obj = None
        self.rng = None


class Sched:
    """policy(sched, runnable procs, current proc) -> next proc"""
    def __init__(self, policy, fuel=10**6, on_event=None):
        self.policy, self.fuel, self.on_event = policy, fuel, on_event
        self.procs = []
        self.next_pid = PID0
        self.current = None
        self.clock = 1.0e9
        self.done = threading.Event()
        self.reason = None
        self.steps = 0
        self.hooks = {}
        self.crashes = []
        self.nseed = 0
        self.point_hook = None

    # -- processes
    def spawn(self, name, body, obj=None, parent=None):
        p = Proc(self, len(self.procs), name)
        p.obj = obj
        if parent is not None:
            p.handlers = dict(parent.handlers)
        import numpy as np
        p.rng = (random.getstate(), np.random.get_state())
        if parent is not None:          # the interpreter seeds `random` anew in a forked child, numpy does not
            self.nseed += 1
            p.rng = (random.Random('fork %d %d %r' % (self.nseed, p.idx, p.rng[0][1][:3])).getstate(), p.rng[1])
        self.procs.append(p)

        def run():
            p.sem.acquire()
            self._enter(p)
            try:
                if p.killed:
                    raise SimKilled()
                body()
                p.exitcode = 0
            except SimKilled:
                p.exitcode = -9
            except SystemExit as e:
                p.exitcode = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException as e:
                p.exitcode = 1
                tb = traceback.extract_tb(e.__traceback__)
                self.crashes.append({'proc': p.idx, 'name': name, 'type': type(e).__name__, 'text': str(e)[:300],
                                     'frames': [(f.filename, f.lineno, f.name) for f in tb][-8:]})
            sys.settrace(None)
            p.dead = True
            if self.on_event:
                self.on_event('exit', p, p.exitcode)
            self._leave(p)

        t = threading.Thread(target=run, daemon=True)
        p.thread = t
        t.start()
        return p

    def _enter(self, p):
        import numpy as np
        self.current = p
        random.setstate(p.rng[0])
        np.random.set_state(p.rng[1])

    def _save(self, p):
        import numpy as np
        p.rng = (random.getstate(), np.random.get_state())

    def runnable(self):
        r = []
        for q in self.procs:
            if not q.dead and (q.cond is None or q.killed or q.pending or q.cond()):
                r.append(q)
        return r

    def _pick(self):
        r = self.runnable()
        if not r:
            return None
        return self.policy(self, r, self.current)

    def _leave(self, p):
        """p has ended: hand the baton on"""
        q = self._pick()
        if q is None:
            alive = [x for x in self.procs if not x.dead]
            self.stop('all ended' if not alive else 'deadlock')
            return
        q.sem.release()

    def stop(self, reason):
        if not self.done.is_set():
            self.reason = reason
            self.done.set()

    def halt(self, reason):
        """stop everything from within a process"""
        self.stop(reason)
        threading.Event().wait()

    def point(self):
        """a scheduling point of the current process"""
        p = self.current
        if threading.current_thread() is not getattr(p, 'thread', None):
            return          # not one of ours (set-up code)
        self.steps += 1
        p.steps += 1
        self.clock += 1e-4
        if self.steps > self.fuel:
            self.halt('fuel')
        if self.point_hook:
            self.point_hook(self)
        q = self._pick()
        if q is not p:
            self._switch(p, q)
        self._signals(p)

    def _switch(self, p, q):
        if q is None:
            self.halt('deadlock')
        self._save(p)
        q.sem.release()
        p.sem.acquire()
        self._enter(p)

    def _signals(self, p):
        if p.killed:
            raise SimKilled()
        while p.pending:
            s = p.pending.pop(0)
            self.handle(p, s)

    def handle(self, p, signum, frame=None):
        import signal
        h = p.handlers.get(signum, signal.SIG_DFL)
        if h is signal.SIG_IGN:
            return
        if h in (signal.SIG_DFL, None):
            if signum == signal.SIGINT:
                raise KeyboardInterrupt()
            if signum == getattr(signal, 'SIGCHLD', None):
                return
            if self.on_event:
                self.on_event('killed', p, signum)
            p.killed = True
            raise SimKilled()
        if self.on_event:
            self.on_event('signal', p, signum)
        h(signum, frame)

    def block(self, cond, what):
        p = self.current
        if threading.current_thread() is not getattr(p, 'thread', None):
            if not cond():
                raise RuntimeError('blocked outside of the simulation: %s' % what)
            return
        p.about = what
        self.point()
        p.about = None
        while not cond():
            p.cond, p.what = cond, what
            q = self._pick()
            if q is not p:
                self._switch(p, q)
            p.cond = p.what = None
            self.steps += 1
            if self.steps > self.fuel:
                self.halt('fuel')
            self._signals(p)

    def run(self, main, wall=100):
        """run main() as process 0; returns the reason why the simulation ended"""
        p = self.spawn('main', main)
        self.current = p
        p.sem.release()
        if not self.done.wait(wall):
            self.reason = 'wall'
            self.fuel = -1              # whoever still runs stops at its next operation
            if self.current is not None:
                fr = sys._current_frames().get(getattr(self.current, 'thread').ident)
                self.stuck_at = [(f.filename, f.lineno, f.name) for f in traceback.extract_stack(fr)][-6:] if fr else None
        return self.reason


def cur():
    return SCHED.current if SCHED else None


# ------------------------------------------------------------------------------------------- objects

class SimRLock:
    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, block=True, timeout=None):
        me = cur()
        if SCHED:
            if self.owner is not me:
                if not block:
                    SCHED.point()
                    if self.count:
                        return False
                else:
                    SCHED.block(lambda: self.count == 0, 'lock')
        self.owner = me
        self.count += 1
        return True

    def release(self):
        self.count -= 1
        if self.count <= 0:
            self.owner, self.count = None, 0
        if SCHED:
            SCHED.point()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise RuntimeError('Lock objects should only be shared between processes through inheritance')


class SimLock(SimRLock):
    def acquire(self, block=True, timeout=None):
        if SCHED:
            if not block:
                SCHED.point()
                if self.count:
                    return False
            else:
                SCHED.block(lambda: self.count == 0, 'lock')
        self.owner, self.count = cur(), 1
        return True


_TYPES = {'d': ctypes.c_double, 'f': ctypes.c_float, 'i': ctypes.c_int, 'l': ctypes.c_long, 'I': ctypes.c_uint,
          'b': ctypes.c_byte, 'B': ctypes.c_ubyte, 'h': ctypes.c_short, 'q': ctypes.c_longlong}


class SimValue:
    def __init__(self, typ, *args, lock=True, ctx=None):
        self._t = _TYPES.get(typ, typ)
        self._v = self._t(*args).value
        self._lock = lock if hasattr(lock, 'acquire') else (SimRLock() if lock else None)
        self._name = None

    def get_lock(self):
        return self._lock

    def get_obj(self):
        return self

    def _access(self):
        if SCHED:
            if self._lock is not None:
                SCHED.block(lambda: self._lock.count == 0 or self._lock.owner is cur(), 'value')
            else:
                SCHED.point()

    @property
    def value(self):
        self._access()
        if SCHED and SCHED.on_event:
            SCHED.on_event('read', cur(), self)
        return self._v

    @value.setter
    def value(self, v):
        self._access()
        old = self._v
        self._v = self._t(v).value
        if SCHED and SCHED.on_event:
            SCHED.on_event('write', cur(), self, old, self._v)

    def acquire(self, *a, **k):
        return self._lock.acquire(*a, **k)

    def release(self):
        return self._lock.release()

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise RuntimeError('Synchronized objects should only be shared between processes through inheritance')


class SimArray(SimValue):
    def __init__(self, typ, init, lock=True, ctx=None):
        self._t = _TYPES.get(typ, typ)
        self._a = [self._t(x).value for x in (init if not isinstance(init, int) else [0] * init)]
        self._lock = SimRLock()
        self._name = None

    def __getitem__(self, i):
        self._access()
        return self._a[i]

    def __setitem__(self, i, v):
        self._access()
        self._a[i] = v

    def __len__(self):
        return len(self._a)


class SimConn:
    def __init__(self, pair, side):
        self.pair, self.side = pair, side
        self.inbox = collections.deque()
        self.peer = None
        self.closed = False

    def send(self, obj):
        data = bytes(ForkingPickler.dumps(obj))
        if SCHED:
            SCHED.point()
            if SCHED.on_event:
                SCHED.on_event('send', cur(), self, obj)
        self.peer.inbox.append(data)

    def poll(self, timeout=0.0):
        if SCHED:
            SCHED.point()
            if SCHED.on_event:
                SCHED.on_event('poll', cur(), self)
            if timeout is None:
                SCHED.block(lambda: bool(self.inbox), 'poll')
            elif timeout > 0 and not self.inbox:
                end = SCHED.clock + timeout
                n = 0
                while not self.inbox and SCHED.clock < end and n < 1000:
                    SCHED.clock += timeout / 20
                    SCHED.point()
                    n += 1
        return bool(self.inbox)

    def recv(self):
        if SCHED:
            if SCHED.on_event:
                SCHED.on_event('recvcall', cur(), self)
            SCHED.block(lambda: bool(self.inbox), ('recv', self))
        obj = pickle.loads(self.inbox.popleft())
        if SCHED and SCHED.on_event:
            SCHED.on_event('recv', cur(), self, obj)
        return obj

    def fileno(self):
        return 10000 + 2 * self.pair + self.side

    def close(self):
        self.closed = True

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise RuntimeError('Connection objects should only be shared between processes through inheritance')


_npairs = [0]
PAIRS = []


def SimPipe(duplex=True):
    n = _npairs[0]
    _npairs[0] += 1
    a, b = SimConn(n, 0), SimConn(n, 1)
    a.peer, b.peer = b, a
    PAIRS.append((a, b))
    return a, b


def sim_wait(object_list, timeout=None):
    def ready():
        out = []
        for o in object_list:
            if isinstance(o, SimConn) and o.inbox:
                out.append(o)
            elif isinstance(o, Proc) and o.dead:
                out.append(o)
        return out
    if SCHED:
        if timeout is None:
            SCHED.block(lambda: bool(ready()), 'wait')
        else:
            SCHED.point()
            SCHED.clock += timeout
    return ready()


def _dc_obj(x, memo):
    y = x.__class__.__new__(x.__class__)
    memo[id(x)] = y
    for k, v in x.__dict__.items():
        y.__dict__[k] = copy.deepcopy(v, memo)
    return y


def fork_copy(x, memo):
    """What a forked child has: a copy of everything except what is shared, whatever pickling would leave out"""
    added = []
    for name, m in list(sys.modules.items()):
        if name.split('.')[0] != 'cpnest':
            continue
        for c in list(vars(m).values()):
            if isinstance(c, type) and c.__module__.split('.')[0] == 'cpnest' and c.__dictoffset__ \
                    and not hasattr(c, '__deepcopy__') and not issubclass(c, (list, dict, tuple, BaseException)) \
                    and c not in copy._deepcopy_dispatch:
                copy._deepcopy_dispatch[c] = _dc_obj
                added.append(c)
    try:
        return copy.deepcopy(x, memo)
    finally:
        for c in added:
            del copy._deepcopy_dispatch[c]


class SimProcess:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        self.name = name or 'Process'
        self.daemon = bool(daemon)
        self._p = None
        self._closed = False

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        import numpy as np
        assert self._p is None, 'cannot start a process twice'
        memo = {}
        rand = getattr(np.random.mtrand, '_rand', None)
        if rand is not None:
            memo[id(rand)] = rand
        memo[id(random._inst)] = random._inst
        clone = copy.copy(self)
        t = self._target
        if hasattr(t, '__self__') and not isinstance(t.__self__, type(sys)):
            obj = fork_copy(t.__self__, memo)
            clone._target = t.__func__.__get__(obj) if hasattr(t, '__func__') else getattr(obj, t.__name__)
        else:
            obj = None
        clone._args = fork_copy(self._args, memo)
        clone._kwargs = fork_copy(self._kwargs, memo)
        if obj is None:
            # a function or a lambda: what it works on is found among its arguments
            for a in list(clone._args) + list(clone._kwargs.values()):
                if hasattr(a, 'produce_sample'):
                    obj = a
        if SCHED.on_event:
            SCHED.on_event('start', cur(), self)
        self._p = SCHED.spawn(self.name, clone.run, obj=obj, parent=cur())
        self._p.sim = self
        SCHED.point()

    def join(self, timeout=None):
        if SCHED.on_event:
            SCHED.on_event('join', cur(), self)
        if timeout is None:
            SCHED.block(lambda: self._p.dead, ('join', self._p))
        else:
            end = SCHED.clock + timeout
            n = 0
            while not self._p.dead and SCHED.clock < end and n < 2000:
                SCHED.clock += timeout / 200
                SCHED.point()
                n += 1

    def is_alive(self):
        SCHED.point()
        return self._p is not None and not self._p.dead

    @property
    def exitcode(self):
        return None if self._p is None or not self._p.dead else self._p.exitcode

    @property
    def pid(self):
        return None if self._p is None else self._p.pid
    ident = pid

    def terminate(self):
        import signal
        if self._p and not self._p.dead:
            self._p.pending.append(signal.SIGTERM)
            SCHED.point()

    def kill(self):
        if self._p and not self._p.dead:
            self._p.killed = True
            SCHED.point()

    def close(self):
        self._closed = True


class SimSyncManager:
    """multiprocessing.managers.SyncManager without its server process"""
    def __init__(self, *a, **k):
        pass

    def start(self, *a, **k):
        pass

    def shutdown(self):
        pass

    def connect(self):
        pass

    def Value(self, typ, *args, **k):
        return SimValue(typ, *args)

    def Lock(self):
        return SimLock()

    def RLock(self):
        return SimRLock()

    def Namespace(self):
        return type('Namespace', (), {})()

    def dict(self, *a, **k):
        return dict(*a, **k)

    def list(self, *a):
        return list(*a)

    def __deepcopy__(self, memo):
        new = self.__class__.__new__(self.__class__)
        memo[id(self)] = new
        for k, v in self.__dict__.items():
            new.__dict__[k] = copy.deepcopy(v, memo)
        return new

    def __reduce__(self):
        raise TypeError('Pickling a manager object is disallowed')


class SimContext:
    Process = SimProcess
    Pipe = staticmethod(SimPipe)
    Value = SimValue
    Array = SimArray
    Lock = SimLock
    RLock = SimRLock

    def cpu_count(self):
        return 2

    def get_start_method(self, *a, **k):
        return 'fork'

    def get_context(self, *a):
        return self


# ------------------------------------------------------------------------------------------ patching

def patch(cpu_count=2):
    import multiprocessing as mp
    import multiprocessing.connection, multiprocessing.managers, multiprocessing.sharedctypes, multiprocessing.context
    import signal
    import numpy as np
    if _real:
        return
    assert 'cpnest' not in sys.modules, 'cpnest was imported before the simulation'
    _real.update(time=time.time, sleep=time.sleep, getpid=os.getpid, signal=signal.signal, kill=os.kill,
                 seed=np.random.seed, pyseed=random.seed)
    ctx = SimContext()
    for m in (mp,):
        m.Process, m.Pipe, m.Value, m.Array, m.Lock, m.RLock = SimProcess, SimPipe, SimValue, SimArray, SimLock, SimRLock
        m.cpu_count = lambda: cpu_count
        m.get_context = lambda *a: ctx
        m.active_children = lambda: [q.sim for q in SCHED.procs if hasattr(q, 'sim') and not q.dead] if SCHED else []
    mp.sharedctypes.Value, mp.sharedctypes.Array = SimValue, SimArray
    mp.managers.SyncManager = SimSyncManager
    mp.connection.wait = sim_wait
    mp.connection.Pipe = SimPipe
    mp.process.BaseProcess.__init__  # the real classes stay for the harness itself

    def f_time():
        if SCHED:
            SCHED.clock += 1e-3
            return SCHED.clock
        return _real['time']()

    def f_sleep(s):
        if SCHED:
            SCHED.clock += s
            SCHED.point()
        else:
            _real['sleep'](s)

    def f_getpid():
        p = cur()
        if p is not None and threading.current_thread() is getattr(p, 'thread', None):
            return p.pid
        return _real['getpid']()

    def f_signal(signum, handler):
        p = cur()
        if p is None:
            return None
        old = p.handlers.get(signum, signal.SIG_DFL)
        p.handlers[signum] = handler
        return old

    def f_kill(pid, signum):
        if SCHED:
            for q in SCHED.procs:
                if q.pid == pid:
                    if signum == 9:
                        q.killed = True
                    elif signum:
                        q.pending.append(signum)
                    SCHED.point()
                    return
            raise ProcessLookupError(pid)
        return _real['kill'](pid, signum)

    def f_seed(seed=None):
        # "fresh entropy" is a different number each time, but the same ones in each run of the harness
        if seed is None and SCHED:
            SCHED.nseed += 1
            if SCHED.on_event:
                SCHED.on_event('entropy', cur())
            return _real['seed']([987, SCHED.nseed, cur().idx])
        return _real['seed'](seed)

    def f_pyseed(a=None, version=2):
        if a is None and SCHED:
            SCHED.nseed += 1
            return _real['pyseed'](987000 + SCHED.nseed)
        return _real['pyseed'](a, version)

    time.time, time.sleep, os.getpid, signal.signal, os.kill = f_time, f_sleep, f_getpid, f_signal, f_kill
    np.random.seed, random.seed = f_seed, f_pyseed


# ------------------------------------------------------------------------------------------ policies

def make_policy(kind, rnd):
    """Scheduling policies; rnd is a random.Random of the harness (its own stream)"""
    if kind.startswith('random'):
        p = float(kind[6:] or 0.3)

        def pol(s, r, c):
            if c in r and rnd.random() > p:
                return c
            return r[int(rnd.random() * len(r))]
    elif kind == 'round':
        def pol(s, r, c):
            i = c.idx if c else -1
            for q in r:
                if q.idx > i:
                    return q
            return r[0]
    elif kind == 'main':            # the nested sampler runs whenever it can
        def pol(s, r, c):
            if r[0].idx == 0:
                return r[0]
            return r[int(rnd.random() * len(r))]
    elif kind == 'samplers':        # the nested sampler runs rarely
        def pol(s, r, c):
            w = [q for q in r if q.idx != 0]
            if not w or rnd.random() < 0.02:
                return r[int(rnd.random() * len(r))]
            if c in w and rnd.random() < 0.6:
                return c
            return w[int(rnd.random() * len(w))]
    elif kind.startswith('starve'):  # one process runs rarely
        victim = int(kind[6:])

        def pol(s, r, c):
            w = [q for q in r if q.idx != victim]
            if not w or rnd.random() < 0.01:
                return r[int(rnd.random() * len(r))]
            if c in w and rnd.random() < 0.7:
                return c
            return w[int(rnd.random() * len(w))]
    elif kind == 'stall':           # a process stops for long just after a step (between reading something and using it)
        until = {}

        def pol(s, r, c):
            t = s.steps
            if c is not None and c.idx not in until and rnd.random() < 0.08:
                until[c.idx] = t + int(10 ** (1 + 2.2 * rnd.random()))
            for i in [i for i, u in until.items() if u <= t]:
                del until[i]
            w = [q for q in r if q.idx not in until] or r
            if c in w and rnd.random() > 0.3:
                return c
            return w[int(rnd.random() * len(w))]
    elif kind == 'gate':            # processes stop for long just before they take a lock
        until = {}

        def pol(s, r, c):
            t = s.steps
            if c is not None and getattr(c, 'about', None) == 'lock' and c.idx not in until and rnd.random() < 0.6:
                until[c.idx] = t + int(10 ** (1.5 + 2 * rnd.random()))
            for i in [i for i, u in until.items() if u <= t]:
                del until[i]
            w = [q for q in r if q.idx not in until] or r
            if c in w and rnd.random() > 0.3:
                return c
            return w[int(rnd.random() * len(w))]
    elif kind == 'pct':             # priorities that change at random points
        prio = {}

        def pol(s, r, c):
            for q in r:
                if q.idx not in prio:
                    prio[q.idx] = rnd.random()
            b = max(r, key=lambda q: prio[q.idx])
            if rnd.random() < 0.01:
                prio[b.idx] = rnd.random() - 1
            # a process that only polls must not starve the others for ever
            if rnd.random() < 0.02:
                return r[int(rnd.random() * len(r))]
            return b
    else:
        raise ValueError(kind)
    return pol


def reset():
    global SCHED
    SCHED = None
    _npairs[0] = 0
    del PAIRS[:]
