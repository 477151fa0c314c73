"""Shared machinery of the checks: seeds, TLC, parallel runs of the real code, evidence, verdicts."""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
OUT = os.path.join(VERIF, 'out')
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NCPU = min(8, os.cpu_count() or 1)

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')


class MachineryError(Exception):
    pass


def rng(*what):
    """A random stream for this purpose, determined by VERIF_SEED"""
    h = hashlib.sha256(repr((SEED,) + what).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


def tier(quick, thorough):
    return thorough if THOROUGH else quick


class Scratch:
    """A directory of its own for the run, removed at the end"""
    def __init__(self, prefix='cpv-'):
        self.path = tempfile.mkdtemp(prefix=prefix)

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


# ---------------------------------------------------------------------------------------------- TLC

TLC_JAR = '/opt/veriftools/tla/tla2tools.jar'


class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found', out)
        m2 = re.findall(r'([\d,]+) states generated[^,]*, ([\d,]+) distinct states found', out)
        self.generated = self.distinct = 0
        if m:
            self.generated, self.distinct = map(int, m[-1])
        elif m2:
            self.generated, self.distinct = [int(x.replace(',', '')) for x in m2[-1]]
        self.prints = []
        for line in out.splitlines():
            m = re.match(r'^"(@@.*)"$', line)
            if m:
                s = json.loads('"' + m.group(1) + '"') if '\\' in m.group(1) else m.group(1)
                self.prints.append(s[2:])


def tlc(module, cfg, env=None, workers=None, args=(), timeout=600, heap='4g', ok_rc=(0,), jvm=()):
    """Run TLC on spec/<module>.tla with spec/<cfg>; every run has its own metadata directory"""
    meta = tempfile.mkdtemp(prefix='tlc-')
    try:
        e = dict(os.environ)
        e.update(env or {})
        e['JAVA_TOOL_OPTIONS'] = ' '.join(['-Xmx' + heap, '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + meta] + list(jvm))
        cmd = ['tlc', '-metadir', os.path.join(meta, 'm'), '-noGenerateSpecTE', '-workers', str(workers or NCPU),
               '-config', os.path.join(SPEC, cfg) if not os.path.isabs(cfg) else cfg] + list(args) + [os.path.basename(module) + '.tla']
        where = SPEC
        if os.path.isabs(module):            # a generated module that extends one of ours
            where = os.path.dirname(module)
            e['JAVA_TOOL_OPTIONS'] += ' -DTLA-Library=' + SPEC
        p = subprocess.Popen(cmd, cwd=where, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            raise MachineryError('TLC timed out on %s/%s\n%s' % (module, cfg, out[-2000:]))
        r = TLCResult(out, p.returncode)
        if ok_rc is not None and p.returncode not in ok_rc:
            raise MachineryError('TLC failed on %s/%s (exit %d)\n%s' % (module, cfg, p.returncode, out[-6000:]))
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def cfg_file(text):
    """A TLC configuration of its own, removed at exit"""
    import atexit
    fd, f = tempfile.mkstemp(suffix='.cfg')
    os.write(fd, text.encode())
    os.close(fd)
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and os.path.exists(f) and os.remove(f))
    return f


def generate(module, cfg, simulate=None, depth=100, seeds=1, timeout=600, tag='', chk=None, heap='3g'):
    """Behaviours that `module` prints as "@@B <json>": all of them (breadth first), or `simulate` random ones for each of `seeds` seeds"""
    if simulate is None:
        rs = [tlc(module, cfg, timeout=timeout, heap=heap)]
    else:
        from concurrent.futures import ThreadPoolExecutor
        r = rng('generate', module, tag)
        def one(s):
            return tlc(module, cfg, workers=1, args=['-simulate', 'num=%d' % simulate, '-depth', str(depth), '-seed', str(s), '-aril', '0'],
                       timeout=timeout, heap=heap)
        with ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(one, [r.randrange(10 ** 8) for _ in range(seeds)]))
    out, seen = [], set()
    for x in rs:
        # the workers of TLC print in any order: sorted, so that a run can be repeated
        for y in sorted(x.prints) if simulate is None else x.prints:
            if y.startswith('B ') and y not in seen:
                seen.add(y)
                out.append(json.loads(y[2:]))
        if chk is not None and simulate is None:
            chk.model(x, '%s, exhaustively: %d behaviours' % (module, len(out)))
    return out


def chunks(xs, k):
    n = max(1, (len(xs) + k - 1) // k)
    return [xs[i:i + n] for i in range(0, len(xs), n)]


class Violation:
    def __init__(self, clause, trace=None, index=None, detail=None, name=None):
        self.clause, self.trace, self.index, self.detail, self.name = clause, trace, index, detail, name

    def key(self):
        return self.clause


def check_traces(module, traces, enforced, cfg=None, timeout=600, workers=None, heap='6g'):
    """Validate traces (dicts with 'cfg' and 'ev') against the trace specification `module`.

    The trace specification prints "@@V <tid> <l> <clause>" when a recorded step is not allowed and "@@E <tid> <l>" when
    a trace ends; every trace must do one of the two. Returns (violations, states, transitions)."""
    if not traces:
        return [], 0, 0
    d = tempfile.mkdtemp(prefix='trc-')
    viols, states, trans = [], 0, 0
    try:
        # bounded batches keep the JSON small enough
        batches, cur, size = [], [], 0
        for i, t in enumerate(traces):
            k = len(t['ev']) + 1
            if cur and size + k > 60000:
                batches.append(cur)
                cur, size = [], 0
            cur.append(i)
            size += k
        batches.append(cur)
        for b in batches:
            f = os.path.join(d, 'traces.json')
            with open(f, 'w') as h:
                json.dump([{'cfg': traces[i]['cfg'], 'ev': traces[i]['ev']} for i in b], h)
            r = tlc(module, cfg or module + '.cfg', env={'TRACES': f, 'ENFORCED': ','.join(enforced)},
                    timeout=timeout, workers=workers, heap=heap)
            states += r.distinct
            trans += r.generated
            done = set()
            for s in r.prints:
                w = s.split(' ')
                if w[0] == 'V':
                    done.add(int(w[1]))
                    t = traces[b[int(w[1]) - 1]]
                    viols.append(Violation(' '.join(w[3:]), t, int(w[2]) - 1, name=t.get('name')))
                elif w[0] == 'E':
                    done.add(int(w[1]))
            if done != set(range(1, len(b) + 1)):
                raise MachineryError('%s gave no verdict on some traces\n%s' % (module, r.out[-4000:]))
        return viols, states, trans
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------------ runs of the real code

def parallel(fn, jobs, timeout=120, n=None):
    """Run fn(job) for every job, each in a forked process of its own (whatever it leaves behind goes with it).

    Returns a list of results: ('ok', value), ('error', text), or ('timeout', None)."""
    n = n or NCPU
    res = [None] * len(jobs)
    pend = list(range(len(jobs)))[::-1]
    run = {}
    d = tempfile.mkdtemp(prefix='par-')
    try:
        while pend or run:
            while pend and len(run) < n:
                i = pend.pop()
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setsid()
                        import faulthandler
                        stacks = open(os.path.join(d, '%d.stk' % i), 'w')
                        faulthandler.dump_traceback_later(max(1, timeout - 3), file=stacks)
                        out = os.path.join(d, '%d.tmp' % i)
                        try:
                            r = ['ok', fn(jobs[i])]
                        except BaseException:
                            r = ['error', traceback.format_exc()]
                        try:
                            text = json.dumps(r, default=lambda o: o.item())
                        except BaseException:
                            text = json.dumps(['error', traceback.format_exc()])
                        with open(out, 'w') as f:
                            f.write(text)
                        os.rename(out, out[:-4] + '.json')
                    finally:
                        os._exit(0)
                run[pid] = (i, time.monotonic())
            reaped = False
            for pid in list(run):
                p, st = os.waitpid(pid, os.WNOHANG)
                i, t0 = run[pid]
                if p:
                    del run[pid]
                    reaped = True
                    _killgroup(pid)
                    f = os.path.join(d, '%d.json' % i)
                    if os.path.exists(f):
                        with open(f) as h:
                            res[i] = tuple(json.load(h))
                        os.remove(f)
                    else:
                        res[i] = ('error', 'the child died with status %r' % st)
                elif time.monotonic() - t0 > timeout:
                    _killgroup(pid)
                    os.waitpid(pid, 0)
                    del run[pid]
                    f = os.path.join(d, '%d.stk' % i)
                    with open(f) as h:
                        res[i] = ('timeout', h.read()[-4000:])
                    reaped = True
            if not reaped:
                time.sleep(0.005)
        return res
    finally:
        for pid in run:
            _killgroup(pid)
        shutil.rmtree(d, ignore_errors=True)


def _killgroup(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


# ------------------------------------------------------------------------------------------ verdicts

def known_findings(prop):
    """Entries of known_findings.json (not the fixed ones) for this property: (clause, scenario name) pairs"""
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    with open(f) as h:
        return [k for k in json.load(h)['known'] if k['property'] == prop]


class Check:
    """One run of a check: collects coverage and violations, writes the evidence file, ends with the verdict"""
    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.viols = []
        self.notes = []

    def model(self, r, what):
        """Account for an exhaustive run of TLC on the model"""
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.generated
        self.cov.setdefault('model_runs', []).append({'what': what, 'distinct': r.distinct, 'generated': r.generated})

    def traces(self, module, traces, enforced=None, **kw):
        v, s, t = check_traces(module, traces, enforced or [self.prop], **kw)
        self.cov['states'] += s
        self.cov['transitions'] += t
        self.cov['traces_validated_against_impl'] += len(traces)
        self.cov.setdefault('trace_runs', []).append({'spec': module, 'traces': len(traces),
                                                      'events': sum(len(x['ev']) for x in traces)})
        if traces and len(self.cov['samples']) < 3:
            x = traces[0]
            self.cov['samples'].append({'spec': module, 'scenario': x.get('name'), 'cfg': x['cfg'],
                                        'events': x['ev'][:6], 'length': len(x['ev'])})
        self.viols += v
        return v

    def violation(self, clause, detail=None, name=None):
        self.viols.append(Violation(clause, None, None, detail, name))

    def finish(self):
        known = known_findings(self.prop)
        new, listed = [], []
        for v in self.viols:
            k = [k for k in known if k['clause'] == v.clause and (k.get('scenario') in (None, v.name))]
            (listed if k else new).append((v, k))
        for v, k in listed:
            self.notes.append(k[0]['what'])
        for w in sorted(set(self.notes)):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, w))
        path = None
        if new:
            os.makedirs(os.path.join(OUT, self.prop), exist_ok=True)
            seen = set()
            for v, _ in new:
                if v.clause in seen and len(seen) < 50:
                    continue
                seen.add(v.clause)
                p = os.path.join(OUT, self.prop, 'violation-%d.json' % len(seen))
                with open(p, 'w') as f:
                    lo = max(0, (v.index or 0) - 40)
                    json.dump({'property': self.prop, 'clause': v.clause, 'scenario': v.name, 'detail': v.detail,
                               'seed': SEED, 'tier': TIER, 'job': (v.trace or {}).get('job'),
                               'event_index': v.index, 'cfg': (v.trace or {}).get('cfg'),
                               'events_before': (v.trace or {}).get('ev', [])[lo:(v.index or 0) + 1],
                               'trace': v.trace and v.trace.get('ev')}, f, indent=1, default=str)
                path = path or p
                print('  clause %s in %s%s' % (v.clause, v.name, (' at event %d' % v.index) if v.index is not None else ''))
                if v.detail:
                    print('   ', str(v.detail)[:600])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {'property': self.prop, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': self.level,
              'coverage': self.cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(new)}
        tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % self.prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, 'evidence', self.prop + '.json'))
        print('%s: %s; %d states, %d traces, %.1fs' % (self.prop, 'VIOLATED' if new else 'holds', self.cov['states'],
                                                      self.cov['traces_validated_against_impl'], time.time() - self.t0))
        sys.stdout.flush()
        return 1 if new else 0
