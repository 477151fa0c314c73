"""Replays of generated Hamiltonian trajectories (spec/Leap.tla) in the real proposals"""
import array, math, os, shutil, signal, tempfile
import boot, common
from common import cfg_file, generate, rng, tier
from unit_checks import replay

INF = math.inf
BIG = 1000000
AX = {'axis1': (3.0, 0.0), 'axis2': (0.0, -2.0), 'diag': (0.5, 0.5), 'anti': (2.0, -2.0), 'none': (0.0, 0.0)}


def prepare():
    boot.install()
    import cpnest, cpnest.model, cpnest.parameter, cpnest.proposal


def tla_set(xs):
    return '{%s}' % ', '.join(('"%s"' % x) if isinstance(x, str) else '<<%s>>' % ', '.join(map(str, x)) if isinstance(x, tuple) else str(x) for x in xs)


def cases(chk, dims, boxes, starts, moms, steps, masses, forces, pots, likes, normals, slips=(), inv=('Reversible', 'EnergyKept', 'MirrorKeeps', 'BothWays', 'InBox'), emit=True):
    d = tempfile.mkdtemp(prefix='leap-')
    try:
        with open(os.path.join(d, 'MCLeap.tla'), 'w') as f:
            f.write('---- MODULE MCLeap ----\nEXTENDS Leap\nMCB == %s\nMCS == %s\nMCP == %s\n====\n' % (tla_set(boxes), tla_set(starts), tla_set(moms)))
        cfg = cfg_file('CONSTANTS Dims = %d Boxes <- MCB Starts <- MCS Moms <- MCP Steps = %s Masses = %s Forces = %s Pots = %s Likes = %s Normals = %s Slips = %s\n'
                       'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT %s %s\n'
                       % (dims, tla_set(steps), tla_set(masses), tla_set(forces), tla_set(pots), tla_set(likes), tla_set(normals), tla_set(slips), ' '.join(inv), 'Emit' if emit else ''))
        return generate(os.path.join(d, 'MCLeap'), cfg, chk=chk, timeout=800)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def landscape(b):
    """The model and the contour normal of a case"""
    import numpy as np
    from cpnest.model import Model
    k, dims = b['k'], b['dims']
    b2 = k['b']

    class Toy(Model):
        names = ['u', 'v', 'w'][:dims]
        bounds = [[b2[0] / 2.0, b2[1] / 2.0] for _ in range(dims)]

        def at(self, p):
            return [int(round(x)) for x in p.values]

        def log_prior(self, p):
            q = self.at(p)
            if not all(b2[0] < 2 * x < b2[1] for x in q):
                return -INF
            v = k['v']
            if v == 'hole':
                return -INF if q[0] % 3 == 1 else 0.0
            return -float(0 if v == 'flat' else sum(x * x for x in q) if v == 'quad' else abs(q[0]))

        def log_likelihood(self, p):
            q = self.at(p)
            l = k['l']
            x = {'all': 1, 'none': -1, 'right': 1 if q[0] >= 1 else 0, 'ball': 1 if sum(y * y for y in q) <= 5 else -1,
                 'odd': 1 if q[0] % 2 == 1 else 2, 'last': 1 if q[-1] < 2 else 2}[l]
            return float('nan') if x == 2 else 7.0 + x

        def force(self, p):
            q = self.at(p)
            f = k['f']
            r = np.zeros(1, dtype={'names': self.names, 'formats': ['f8'] * dims})
            for j, n in enumerate(self.names):
                r[n] = {'zero': 0, 'const': 2 * (j + 1), 'spring': 2 * q[j], 'anti': -2 * q[j], 'cross': 2 * q[(j + 1) % dims]}[f]
            return r
    return Toy()


class Given:
    def __init__(self, p):
        self.p = p

    def rvs(self, *a, **kw):
        import numpy as np
        return np.array(self.p, dtype=float) if len(self.p) > 1 else float(self.p[0])


def mover(cls, m, b):
    import numpy as np
    k = b['k']
    o = cls(model=m)
    o.covariance = np.diag([float(x) for x in k['m']])
    o.update_mass()
    o.dt, o.L = 1.0, k['n']
    v = AX[k['nrm']] if b['dims'] > 1 else (2.0,)
    o.normal = [(lambda x, y=y: np.float64(y)) for y in v]
    o.momenta_distribution = Given(b['s']['p'])
    return o


def trajectory(b):
    def late(*a):
        raise RuntimeError('the move does not end')
    signal.signal(signal.SIGVTALRM, late)
    signal.setitimer(signal.ITIMER_VIRTUAL, 20)
    try:
        return moves(b)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def moves(b):
    import numpy as np
    from cpnest.parameter import LivePoint
    from cpnest.proposal import ConstrainedLeapFrog, LeapFrog
    m = landscape(b)
    np.random.seed(b.get('seed', 1))
    start = LivePoint(list(m.names), d=array.array('d', [float(x) for x in b['s']['q']]))
    start.logP, start.logL = m.log_prior(start), m.log_likelihood(start)

    def gain(h):
        return -INF if h >= BIG else min(0.0, (b['h'] - h) / 2.0)

    def kept(q, q0, what):
        if list(q0.values) != [float(x) for x in b['s']['q']] or q0.logP != start.logP or not (q0.logL == start.logL or start.logL != start.logL):
            return '%s changed the point it started from: %r' % (what, list(q0.values))
        if q is q0 or list(q.names) != list(m.names) or len(q.values) != b['dims']:
            return '%s returned %r' % (what, q)

    def near(q, x):
        return all(abs(y - z) < 1e-7 for y, z in zip(q.values, x))
    # the free trajectory
    o = mover(LeapFrog, m, b)
    q0 = start.copy()
    q = o.get_sample(q0)
    e = kept(q, q0, 'the free move')
    if e:
        return e
    if not near(q, b['free']['q']):
        return 'the free move ends at %r, not at %r' % (list(q.values), b['free']['q'])
    want = gain(b['free']['h'])
    if not (o.log_J == want or abs(o.log_J - want) < 1e-7):
        return 'the free move has log_J %r, not %r' % (o.log_J, want)
    # the constrained one
    o = mover(ConstrainedLeapFrog, m, b)
    states = b['both']
    best = [i for i, s in enumerate(states) if s['h'] < BIG]
    inner = [i for i in best if i < len(states) - 1]
    n, seen = b.get('draws', 2), {}
    for _ in range(n):
        q0 = start.copy()
        q = o.get_sample(q0, logLmin=7.0)
        e = kept(q, q0, 'the constrained move') if q is not q0 else None
        if e:
            return e
        if not inner and near(q, b['s']['q']):
            continue                # nowhere to go
        fit = [i for i in best if near(q, states[i]['q']) and (o.log_J == gain(states[i]['h']) or abs(o.log_J - gain(states[i]['h'])) < 1e-7)]
        if not fit:
            return 'the constrained move returned %r with log_J %r, which is no state of its trajectory' % (list(q.values), o.log_J)
        l, p = m.log_likelihood(q), m.log_prior(q)
        if q.logP != p or not (q.logL == l or l != l):
            return 'the constrained move returned %r with logL %r and logP %r' % (list(q.values), q.logL, q.logP)
        key = (tuple(states[fit[0]]['q']), round(o.log_J, 6))
        seen[key] = seen.get(key, 0) + 1
    if n >= 400 and inner:
        # states with equal position and log_J count together; the last state may or may not be offered
        h0 = min(states[i]['h'] for i in best)
        w = {}
        for i in best:
            key = (tuple(states[i]['q']), round(gain(states[i]['h']), 6))
            a = w.setdefault(key, [0.0, 0.0])
            x = math.exp(-(states[i]['h'] - h0) / 2.0)
            a[1] += x
            if i < len(states) - 1:
                a[0] += x
        lo, hi = sum(a[0] for a in w.values()), sum(a[1] for a in w.values())
        for key, a in w.items():
            f, ps = seen.get(key, 0), (a[0] / hi, a[1] / hi if a[1] > a[0] else a[0] / lo, a[0] / lo)
            p0, p1 = min(ps), max(ps)
            s = lambda p: 6 * math.sqrt(n * p * (1 - p)) + 6
            if f < n * p0 - s(p0) or f > n * p1 + s(p1):
                return 'the constrained move returned %r with log_J %r %d times out of %d, expected %.1f..%.1f' % (key[0], key[1], f, n, n * p0, n * p1)
    return None


def momenta(job):
    """Momenta are drawn with the mass matrix as covariance"""
    import numpy as np
    from cpnest.parameter import LivePoint
    from cpnest.proposal import ConstrainedLeapFrog
    import models
    rs = np.random.RandomState(job['seed'])
    np.random.seed(job['seed'])
    m = models.MODELS[job['model']]()
    d = len(m.names)
    A = rs.normal(size=(d, d)) + np.eye(d)
    pts = []
    for _ in range(80):
        x = rs.normal(size=d) @ A.T * 0.3
        x = [min(max(v + (lo + hi) / 2, lo + 1e-3), hi - 1e-3) for v, (lo, hi) in zip(x, m.bounds)]
        p = LivePoint(list(m.names), d=array.array('d', x))
        p.logP, p.logL = m.log_prior(p), -0.5 * float(np.sum(np.square(x))) + 1e-3 * rs.normal()
        pts.append(p)
    o = ConstrainedLeapFrog(model=m)
    o.set_ensemble(pts)
    X = np.array([list(p.values) for p in pts])
    cov = np.atleast_2d(np.cov(X.T) if d > 1 else np.var(X))
    n = 4000
    P = np.array([np.atleast_1d(o.momenta_distribution.rvs()) for _ in range(n)])
    C = np.linalg.cholesky(cov)
    W = P @ C                     # whitened, if their covariance is the inverse of cov
    for i in range(d):
        if abs(W[:, i].mean()) > 6 / math.sqrt(n):
            return 'momenta have mean %r' % (W.mean(axis=0),)
        for j in range(i + 1):
            x = float((W[:, i] * W[:, j]).mean()) - (i == j)
            if abs(x) > 6 * math.sqrt((2.0 if i == j else 1.0) / n):
                return 'momenta are not drawn with the inverse covariance of the ensemble: component %d,%d is off by %r' % (i, j, x)
    # the normal is a unit vector, also where the derivatives vanish or are not numbers
    for p in pts[:20]:
        v = o.unit_normal(p)
        if abs(float(np.dot(v, v)) - 1) > 1e-9:
            return 'unit normal of length %r' % float(np.linalg.norm(v))
    keep = o.normal
    for bad in (0.0, math.nan):
        o.normal = [(lambda x, y=bad: np.float64(y)) for _ in range(d)]
        v = o.unit_normal(pts[0])
        if not abs(float(np.dot(v, v)) - 1) < 1e-9:
            return 'unit normal %r where the derivatives are all %r' % (v, bad)
    o.normal = keep
    return None


def c23(chk):
    prepare()
    allf, allv = ('zero', 'const', 'spring', 'anti'), ('flat', 'quad', 'abs', 'hole')
    bs = cases(chk, 1, [(-7, 9), (-6, 8)], range(-3, 5), (-5, -2, -1, 0, 1, 3, 9), (1, 2, 3), (1, 2), allf, allv[:1] + allv[1:2] + allv[3:], ('all', 'none', 'right', 'ball', 'odd'), ('axis1',))
    bs2 = cases(chk, 2, [(-5, 7)], (-2, 0, 3) if not common.THOROUGH else (-2, -1, 0, 3), (-4, 1) if not common.THOROUGH else (-4, -1, 0, 3), (2,) if not common.THOROUGH else (1, 3), (1, 2),
                allf + ('cross',), ('flat', 'quad', 'hole'), ('all', 'ball', 'last'), ('axis1', 'axis2', 'diag', 'anti', 'none'))
    long = cases(chk, 1, [(-21, 31)], (-9, 0, 4, 14), (-7, -1, 2, 5), (8, 15), (1, 3), ('zero', 'const'), ('flat', 'abs'), ('all', 'right', 'ball', 'odd'), ('axis1',))
    r = rng('C23')
    for xs in (bs, bs2, long):
        r.shuffle(xs)
    run = bs[:tier(9000, 10 ** 9)] + bs2[:tier(9000, 10 ** 9)] + long
    for k, b in enumerate(run):
        b['seed'] = r.randrange(10 ** 6)
    freq = [dict(b, draws=600) for b in r.sample(bs, tier(60, 600)) + r.sample(bs2, tier(40, 400))]
    for slip, inv in (('no-flip', 'Reversible'), ('double-half', 'Reversible'), ('same-way', 'BothWays')):
        slipped(chk, slip, inv)
    replay(chk, trajectory, run + freq, 'trajectory-differs')
    jobs = [{'model': x, 'seed': r.randrange(10 ** 6)} for x in ('Gauss2', 'Gauss3') for _ in range(tier(3, 20))]
    replay(chk, momenta, jobs, 'momenta-or-normals-differ')


def slipped(chk, slip, inv):
    """the specification tells the defective variant"""
    try:
        cases(None, 1, [(-7, 9)], (-2, 0, 1), (-5, 1, 9), (1, 2), (1,), ('zero', 'spring', 'const'), ('flat',), ('all',), ('axis1',), slips=(slip,), inv=(inv,), emit=False)
    except common.MachineryError as e:
        if 'Invariant %s is violated' % inv in str(e):
            return
        raise
    raise common.MachineryError('the specification does not tell the variant %s' % slip)


CHECKS = {'C23': c23}
