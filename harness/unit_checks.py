"""Replays of generated behaviours in single classes: live points, the ordered container, prior support, log files"""
import array, copy, io, logging, math, os, pickle
import boot, common
from common import cfg_file, chunks, generate, rng, tier

INF = math.inf


def prepare():
    boot.install()
    import cpnest, cpnest.model, cpnest.NestedSampling, cpnest.parameter, cpnest.utils


def replay(chk, fn, behaviours, what, timeout=300):
    """fn(behaviour) -> None or a description of the first difference; runs in forked processes"""
    def job(bs):
        out = []
        for b in bs:
            try:
                d = fn(b)
            except BaseException as e:
                import traceback
                d = 'failed: ' + traceback.format_exc()[-1500:]
            if d:
                out.append([d, b])
                if len(out) > 3:
                    break
        return out
    n = 0
    for st, x in common.parallel(job, chunks(behaviours, 16), timeout=timeout):
        if st != 'ok':
            raise common.MachineryError('%s: %s %s' % (what, st, x))
        for d, b in x:
            chk.violation(what, {'difference': d, 'behaviour': b}, what)
    chk.cov['traces_validated_against_impl'] += len(behaviours)
    chk.cov.setdefault('replays', []).append({'what': what, 'behaviours': len(behaviours)})
    if behaviours and len(chk.cov['samples']) < 4:
        chk.cov['samples'].append({'what': what, 'behaviour': behaviours[len(behaviours) // 2]})


def together(fs):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(common.NCPU) as ex:
        return [b for bs in ex.map(lambda f: f(), fs) for b in bs]


# ------------------------------------------------------------------------------------------ live points

UN, NI = 99999, -99999


def fl(x):
    return -INF if x == NI else float(x)


def live_point(b):
    from cpnest.parameter import LivePoint
    dim = b['dim']
    names = ['alpha', 'b', 'x3', 'nu'][:dim]
    objs, srcs = [], []

    def src(i, s):
        while len(srcs) <= i:
            srcs.append([])
        srcs[i].append(s)
    for k, op in enumerate(b['ops']):
        o = op['o']
        at = 'operation %d %s: ' % (k + 1, {x: y for x, y in op.items() if x != 'heap'})
        a = objs[op['a'] - 1] if 'a' in op else None
        c = objs[op['b'] - 1] if 'b' in op else None
        new = None
        if o == 'new':
            d = array.array('d', op['v'])
            new = LivePoint(list(names), d=d, logL=fl(op['L']), logP=fl(op['P']))
            src(len(objs), d)
        elif o == 'blank':
            new = LivePoint(list(names))
        elif o == 'copy':
            new = a.copy()
        elif o == 'pickle':
            new = pickle.loads(pickle.dumps(a, k % (pickle.HIGHEST_PROTOCOL - 1) + 2))
        elif o == 'copy.copy':
            new = copy.copy(a)
        elif o == 'deepcopy':
            new = copy.deepcopy(a)
        elif o == 'add':
            new = a + c
        elif o == 'sub':
            new = a - c
        elif o == 'mul':
            new = a * float(op['k'])
        elif o == 'div':
            new = a / float(op['k'])
        elif o in ('iadd', 'isub', 'imul', 'idiv'):
            x = a
            if o == 'iadd':
                x += c
            elif o == 'isub':
                x -= c
            elif o == 'imul':
                x *= float(op['k'])
            else:
                x /= float(op['k'])
            if x is not a:
                return at + 'gives another object'
        elif o == 'set':
            a[names[op['d'] - 1]] = float(op['x'])
        elif o == 'setlp':
            a.logL, a.logP = fl(op['L']), fl(op['P'])
        elif o == 'get':
            if a[names[op['d'] - 1]] != op['x']:
                return at + 'returned %r' % a[names[op['d'] - 1]]
        elif o in ('get?', 'set?'):
            try:
                if o == 'get?':
                    a[op['nm']]
                else:
                    a[op['nm']] = 1.0
                return at + 'an unknown name was accepted'
            except (KeyError, AttributeError, ValueError, IndexError):
                pass
        elif o == 'record':
            r = a.asnparray()
            want = set(names) | {'logL', 'logPrior'}
            if set(r.dtype.names) != want:
                return at + 'fields %r' % (r.dtype.names,)
            for n, v in zip(names, op['v']):
                if float(r[n][0]) != v:
                    return at + 'field %s is %r' % (n, r[n])
            for n, v, real in (('logL', op['L'], a.logL), ('logPrior', op['P'], a.logP)):
                if float(r[n][0]) != (real if v == UN else fl(v)):
                    return at + 'field %s is %r' % (n, r[n])
            src(op['a'] - 1, r)
        elif o == 'source':
            for s in srcs[op['a'] - 1] if len(srcs) >= op['a'] else []:
                if isinstance(s, array.array):
                    for d in range(dim):
                        s[d] = 77.0
                else:
                    for n in s.dtype.names:
                        s[n] = 78.0
        if new is not None:
            if any(new is q for q in objs):
                return at + 'gives the same object'
            if o in ('copy', 'pickle', 'copy.copy', 'deepcopy'):
                if new.logL != a.logL and not (math.isnan(new.logL) and math.isnan(a.logL)) or new.logP != a.logP:
                    return at + 'likelihood or prior differ'
            objs.append(new)
            while len(srcs) < len(objs):
                srcs.append([])
        if len(objs) != len(op['heap']):
            raise common.MachineryError('heap')
        for i, (q, h) in enumerate(zip(objs, op['heap'])):
            got = [float(v) for v in q.values]
            if got != [float(v) for v in h['v']] or list(q.names) != names or len(q) != dim or q.dimension != dim:
                return at + 'object %d is %r with names %r instead of %r' % (i + 1, got, q.names, h['v'])
            if [q[n] for n in names] != got:
                return at + 'object %d: access by name gives %r' % (i + 1, [q[n] for n in names])
            for n, real in (('L', q.logL), ('P', q.logP)):
                if h[n] != UN and real != fl(h[n]):
                    return at + 'object %d: log%s is %r instead of %r' % (i + 1, n, real, fl(h[n]))
    return None


def lp_cfg(dim, obj, ops, defects=(), props='PROPERTY OnlyNamed', emit=True):
    return cfg_file('CONSTANTS Dim = %d MaxObj = %d MaxOps = %d Defects = {%s}\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
                    'INVARIANT NoSharing %s\n%s\n' % (dim, obj, ops, ', '.join('"%s"' % d for d in defects), 'Emit' if emit else '', props))


def c16(chk):
    prepare()
    bs = generate('LivePoint', lp_cfg(1, 3, tier(2, 3)), chk=chk)
    bs += together([lambda a=a: generate('LivePoint', lp_cfg(*a[:3], props=''), simulate=a[3] * tier(1, 20), depth=a[2] + 3, seeds=tier(2, 8), tag=str(a))
                    for a in ((1, 4, 14, 120), (2, 4, 16, 120), (3, 4, 18, 80), (4, 4, 16, 40))])
    common.tlc('LivePoint', lp_cfg(1, 3, 3, ['aliascopy'], emit=False), ok_rc=(12, 13))     # the invariants see shared coordinates
    replay(chk, live_point, bs, 'live-point-behaviour-not-followed')
    chk.assumptions.append('coordinates are small integers, exactly representable; arithmetic results leave likelihood and prior open')


# ---------------------------------------------------------------------------------- the ordered container

def ordered(b):
    from cpnest.NestedSampling import KeyOrderedList, OrderedLivePoints
    from cpnest.parameter import LivePoint
    tab = {1: -1e300, 2: -7.25, 3: 0.0, 4: 1e-300, 5: 3.5}

    def mk(i, k):
        return LivePoint(['x', 'i'], d=array.array('d', [0.5 * k, float(i)]), logL=tab[k], logP=0.0)
    for kind in ('live', 'plain'):
        if kind == 'live':
            q = OrderedLivePoints([mk(i + 1, k) for i, k in enumerate(b['init'])])
            see = lambda: [(int(p['i']), p.logL) for p in q]
            want = lambda s: [(e['i'], tab[e['k']]) for e in s]
            item, add = mk, lambda it: q.insert_live_point(it)
        else:
            q = KeyOrderedList([(k, i + 1) for i, k in enumerate(b['init'])], key=lambda t: t[0])
            see = lambda: [tuple(t) for t in q]
            want = lambda s: [(e['k'], e['i']) for e in s]
            item, add = (lambda i, k: (k, i)), lambda it: q.add(it)
        if see() != want(b['first']):
            return '%s: built as %r instead of %r' % (kind, see(), want(b['first']))
        nid = len(b['init'])
        for op in b['ops']:
            if op['o'] == 'add':
                nid += 1
                at = add(item(nid, op['k']))
                if at != op['at']:
                    return '%s: %r reported position %r' % (kind, op, at)
            elif op['o'] == 'del':
                if kind == 'plain':
                    break                       # the plain list has no removal of its own
                q.remove_n_worst_points(op['n'])
            else:
                at = q.search(item(0, op['k']))
                if at != op['at']:
                    return '%s: %r found position %r' % (kind, op, at)
            if see() != want(op['q']):
                return '%s: after %r it holds %r' % (kind, op, see())
            if len(q) != len(op['q']):
                return '%s: length' % kind
        # a container that was checkpointed goes on as before
        if kind == 'live':
            q = pickle.loads(pickle.dumps(q))
            if [(int(p['i']), p.logL) for p in q] != want(b['ops'][-1]['q'] if b['ops'] else b['first']):
                return 'the pickled container holds something else'
            k = sum(b['init']) % 3 + 1
            want_at = sum(1 for p in q if p.logL <= tab[k])
            if q.insert_live_point(mk(99, k)) != want_at:
                return 'the pickled container inserts elsewhere'
    return None


def ol_cfg(keys, init, ops, defects=(), emit=True):
    return cfg_file('CONSTANTS Keys = {%s} MaxInit = %d MaxOps = %d Defects = {%s}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
                    'INVARIANT Sorted Count Reported Stable %s\n' % (', '.join(map(str, keys)), init, ops, ', '.join('"%s"' % d for d in defects),
                                                                    'Emit' if emit else ''))


def c17(chk):
    prepare()
    bs = generate('OrderedList', ol_cfg((1, 2), 3, tier(4, 5)), chk=chk)
    bs += generate('OrderedList', ol_cfg((1, 2, 3, 4, 5), 5, 14), simulate=tier(250, 4000), depth=17, seeds=4)
    common.tlc('OrderedList', ol_cfg((1, 2), 2, 2, ['left'], emit=False), ok_rc=(12,))
    replay(chk, ordered, bs, 'ordered-container-behaviour-not-followed')


# -------------------------------------------------------------------------------------------- prior support

U = 8


def boxed(bounds, scale=1.0, prior=None):
    from cpnest.model import Model

    class Box(Model):
        pass
    Box.names = ['p%d' % i for i in range(len(bounds))]
    Box.bounds = [[lo * scale, hi * scale] for lo, hi in bounds]
    if prior:
        Box.log_prior = prior
    return Box()


def point(m, xs):
    from cpnest.parameter import LivePoint
    return LivePoint(list(m.names), d=array.array('d', [float(x) for x in xs]))


def support(c):
    for scale in (1.0, 0.25, 2.0 ** 60, 2.0 ** -60):
        m = boxed(c['b'], scale)
        p = point(m, [x * scale for x in c['x']])
        if bool(m.in_bounds(p)) != c['inb']:
            return 'in_bounds of %r in %r is %r' % (list(p.values), m.bounds, m.in_bounds(p))
        if m.log_prior(p) != (0.0 if c['inb'] else -INF):
            return 'log_prior of %r in %r is %r' % (list(p.values), m.bounds, m.log_prior(p))
        if m.potential(p) != (0.0 if c['inb'] else INF):
            return 'potential of %r in %r is %r' % (list(p.values), m.bounds, m.potential(p))
        u = [k / U for k in c['u']]
        q = m.from_normalised(u)
        want = [k / U * scale for k in c['im']]
        if list(q.names) != list(m.names) or any(abs(g - w) > 1e-12 * max(abs(w), abs(hi - lo)) for g, w, (lo, hi) in zip(q.values, want, m.bounds)):
            return 'from_normalised(%r) in %r is %r instead of %r' % (u, m.bounds, list(q.values), want)
        back = list(m.to_normalised(point(m, want)))
        if len(back) != len(u) or any(abs(g - w) > 1e-12 for g, w in zip(back, u)):
            return 'to_normalised(%r) in %r is %r instead of %r' % (want, m.bounds, back, u)
        # nextafter: one step of the floating point grid to either side of a bound
    m = boxed(c['b'])
    for d, (lo, hi) in enumerate(m.bounds):
        xs = [0.5 * (l + h) for l, h in m.bounds]
        for x, ok in ((math.nextafter(lo, INF), True), (math.nextafter(lo, -INF), False), (math.nextafter(hi, -INF), True),
                      (math.nextafter(hi, INF), False), (math.nan, False), (INF, False), (-INF, False)):
            xs[d] = x
            if bool(m.in_bounds(point(m, xs))) != ok or (m.log_prior(point(m, xs)) == 0.0) != ok:
                return 'in_bounds of %r in %r' % (xs, m.bounds)
    return None


def drawn(job):
    """New points: inside the bounds, with finite prior, and every part of the support is reached"""
    import numpy as np
    np.random.seed(job['seed'])
    holes = job['hole']

    def prior(self, p):
        if not self.in_bounds(p):
            return -INF
        z = [(x - lo) / (hi - lo) for x, (lo, hi) in zip(p.values, self.bounds)]
        return -INF if holes and any(0.3 < v < 0.7 for v in z) else -z[0]
    m = boxed(job['b'], job['scale'], prior if holes is not None else None)
    lows = [INF] * len(m.bounds)
    highs = [-INF] * len(m.bounds)
    for k in range(job['n']):
        p = m.new_point()
        if list(p.names) != list(m.names) or len(p.values) != len(m.bounds):
            return 'new_point has names %r' % (p.names,)
        if not all(lo < x < hi for x, (lo, hi) in zip(p.values, m.bounds)):
            return 'new_point %r outside %r' % (list(p.values), m.bounds)
        if not math.isfinite(m.log_prior(p)):
            return 'new_point %r has log-prior %r' % (list(p.values), m.log_prior(p))
        for d, (x, (lo, hi)) in enumerate(zip(p.values, m.bounds)):
            z = (x - lo) / (hi - lo)
            lows[d], highs[d] = min(lows[d], z), max(highs[d], z)
    if max(lows) > 0.2 or min(highs) < 0.8:
        return 'new points only reach %r..%r of the unit cube' % (lows, highs)
    return None


def sup_cfg(dims, bounds, offs, us, emit=True):
    # TLC's configuration language has no negative numbers or tuples: a module instance of its own carries the constants
    return dims, bounds, offs, us


def sup_cases(chk, dims, bounds, offs, us, simulate=None):
    text = '---- MODULE MCSupport ----\nEXTENDS Support\nMCB == {%s}\n====\n' % ', '.join('<<%d, %d>>' % b for b in bounds)
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix='sup-')
    try:
        with open(os.path.join(d, 'MCSupport.tla'), 'w') as f:
            f.write(text)
        cfg = cfg_file('CONSTANTS Dims = %d Bounds <- MCB Offs = {%s} Us = {%s} U = %d Slips = {}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
                       'INVARIANT EndPoints Emit\n' % (dims, ', '.join(map(str, offs)), ', '.join(map(str, us)), U))
        return generate(os.path.join(d, 'MCSupport'), cfg, chk=chk)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c22(chk):
    prepare()
    bs = sup_cases(chk, 1, [(-3, 5), (0, 4), (-9, -5), (-1000, 1000)], range(7), range(0, U + 1))
    one = list(bs)
    bs += sup_cases(chk, 2, [(-3, 5), (-9, -5)], range(7), (0, 1, 4, 8))
    r = rng('C22', 'many')
    for k in range(tier(600, 20000)):          # many dimensions: put together from cases of one; at most one coordinate not inside
        dim = r.choice([4, 6, 9, 13, 20, 33])
        ones = [r.choice([x for x in one if x['inb']]) for _ in range(dim)]
        if k % 3:
            ones[r.randrange(dim) if k % 2 else -1] = r.choice(one)
        bs.append({q: [v for x in ones for v in x[q]] for q in ('b', 'x', 'u', 'im')} | {'inb': all(x['inb'] for x in ones)})
    bs += sup_cases(chk, 3, [(-3, 5), (10, 14)], (0, 1, 3, 5, 6), (0, 3, 8)) if common.THOROUGH else \
        sup_cases(chk, 3, [(-3, 5), (10, 14)], (1, 3, 5), (0, 3))
    replay(chk, support, bs, 'support-helpers-differ')
    r = rng('C22', 'draws')
    jobs = []
    for k in range(tier(48, 400)):
        dim = r.choice([1, 2, 3, 5, 17])
        b = []
        for _ in range(dim):
            lo = r.randrange(-50, 50)
            b.append([lo, lo + r.randrange(1, 30)])
        jobs.append({'b': b, 'scale': r.choice([1.0, 1e-6, 1e6]), 'n': 300, 'seed': r.randrange(10 ** 6), 'hole': r.choice([None, True, False] if dim < 9 else [None, False])})
    replay(chk, drawn, jobs, 'new-points-outside-the-support')


# ------------------------------------------------------------------------------------------------ log files

LEV = {10: 'DEBUG', 20: 'INFO', 30: 'WARNING', 40: 'ERROR', 50: 'CRITICAL'}


def log_file(b):
    import re, tempfile, shutil
    import cpnest
    from cpnest.utils import LogFile
    d = tempfile.mkdtemp(prefix='cpv-log-')
    cons = io.StringIO()
    boot.loud()
    con = cpnest.console_handler
    old, oldv = con.setStream(cons), con.get_verbosity()
    con.set_verbosity(0)
    before = list(logging.getLogger('cpnest').handlers)

    def ids(text):
        return [int(x) for x in re.findall(r'MSG<(\d+)>', text)]
    try:
        names = [os.path.join(d, 'log %d.txt' % (f - 1)) for f in b['path']]
        mk = lambda i: LogFile(names[i], verbose=b['verb'][i], **({} if b['scope'][i] == 'cpnest' else {'loggername': b['scope'][i]}))
        lf = [mk(i) for i in range(len(names))]
        for k, op in enumerate(b['ops']):
            i = op.get('i', 0) - 1
            if op['o'] == 'open':
                if k % 2:
                    lf[i].open()
                else:
                    lf[i].__enter__()
            elif op['o'] == 'close':
                if k % 2:
                    lf[i].close()
                else:
                    lf[i].__exit__(None, None, None)
            elif op['o'] == 'log':
                logging.getLogger(op['lg']).log(op['lev'], 'MSG<%d>', op['id'])
            elif op['o'] == 'console':
                con.set_verbosity(op['v'])
            else:
                if op['fresh']:
                    lf[i] = mk(i)
                try:
                    with lf[i]:
                        logging.getLogger(op['lg']).log(op['lev'], 'MSG<%d>' % op['id'])
                        if op['raises']:
                            raise ZeroDivisionError
                    if op['raises']:
                        return 'operation %d %r: the exception was swallowed' % (k + 1, op)
                except ZeroDivisionError:
                    if not op['raises']:
                        raise
            for j, n in enumerate(names):
                j = b['path'][j] - 1
                got = ids(open(n).read()) if os.path.exists(n) else []
                if got != op['file'][j]:
                    return 'operation %d %r: file %d holds %r instead of %r' % (k + 1, {x: op[x] for x in op if x not in ('file',)}, j + 1, got, op['file'][j])
            if ids(cons.getvalue()) != op['cons']:
                return 'operation %d %r: the console shows %r instead of %r' % (k + 1, op, ids(cons.getvalue()), op['cons'])
        for j, o in enumerate(b['ops'][-1]['open']):
            if o:
                lf[j].close()
        if logging.getLogger('cpnest').handlers != before:
            return 'handlers were left behind: %r' % (logging.getLogger('cpnest').handlers,)
    finally:
        con.set_verbosity(oldv)
        con.setStream(old)
        for lg in ('cpnest', 'cpnest.cpnest'):
            for h in list(logging.getLogger(lg).handlers):
                if h not in before:
                    logging.getLogger(lg).removeHandler(h)
        shutil.rmtree(d, ignore_errors=True)
    return None


def lf_cases(chk, ops, verb, scope, path=None, simulate=None, defects=(), emit=True, ok=(0,)):
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix='lf-')
    try:
        with open(os.path.join(d, 'MCLogFile.tla'), 'w') as f:
            f.write('---- MODULE MCLogFile ----\nEXTENDS LogFile\nMCV == <<%s>>\nMCS == <<%s>>\nMCP == <<%s>>\n====\n' %
                    (', '.join(map(str, verb)), ', '.join('"%s"' % s for s in scope), ', '.join(map(str, path or range(1, len(verb) + 1)))))
        cfg = cfg_file('CONSTANTS MaxOps = %d Verb <- MCV Scope <- MCS Path <- MCP Defects = {%s}\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Exactly %s\n%s\n' %
                       (ops, ', '.join('"%s"' % x for x in defects), 'Emit' if emit else '', '' if simulate else 'PROPERTY Closed'))
        if defects:
            return common.tlc(os.path.join(d, 'MCLogFile'), cfg, ok_rc=ok)
        return generate(os.path.join(d, 'MCLogFile'), cfg, chk=chk, simulate=simulate, depth=ops + 3, seeds=tier(1, 8), tag=str((verb, path)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c21(chk):
    prepare()
    logging.getLogger('other').propagate = False
    logging.getLogger('other').addHandler(logging.NullHandler())
    bs = lf_cases(chk, 2, (1, 3), ('cpnest', 'cpnest'))
    bs += together([lambda v=v: lf_cases(chk, 12, (v, 3 - v), ('cpnest', 'cpnest'), simulate=tier(200, 2500)) for v in range(4)] +
                   [lambda k=k: lf_cases(chk, 12, (1, 3, 0)[:k], ('cpnest', 'cpnest.cpnest', 'cpnest')[:k], simulate=tier(120, 2500)) for k in (2, 3)] +
                   [lambda v=v, q=q: lf_cases(chk, 12, v, ('cpnest',) * len(v), path=q, simulate=tier(120, 2500)) for v, q in (((3, 3), (1, 1)), ((1, 3, 2), (1, 1, 2)))])
    for x in ('leak', 'closeall', 'truncate'):
        lf_cases(chk, 4, (0, 0), ('cpnest', 'cpnest'), defects=[x], emit=False, ok=(12, 13))
    replay(chk, log_file, bs, 'log-file-behaviour-not-followed')


CHECKS = {'C16': c16, 'C17': c17, 'C21': c21, 'C22': c22}
