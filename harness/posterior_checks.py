"""Weights of nested samples and draws from the posterior (spec/Weights.tla, spec/WeightsTrace.tla)"""
import math, os, random, tempfile, shutil
import boot, common
from common import cfg_file, generate, rng, tier
from fractions import Fraction as F
from unit_checks import together
from proposal_checks import crash, run_all, cap


def prepare():
    boot.install()
    import cpnest, cpnest.nest2pos
    boot.quiet()
    import logging
    logging.getLogger('cpnest').propagate = False
    logging.getLogger('cpnest').addHandler(logging.NullHandler())


def exact(run):
    """Transcription of Vol, W and Z2 of spec/Weights.tla, for likelihoods that are Fractions"""
    N, L = run['N'], run['L']
    n = len(L)
    s = n - N + 1
    X = [F(N - 1, N) ** j for j in range(s + 1)]
    X += [F(N - 1, N) ** (s + 1) * F(N - k, N) for k in range(N)]
    l = [F(0)] + list(L) + [L[-1]]
    sh = [X[k] - X[k + 1] for k in range(n + 1)]
    return {'X': X, 'W': [L[i] * sh[i] for i in range(n)], 'Z2': sum((l[k] + l[k + 1]) * sh[k] for k in range(n + 1))}


def reference(N, logL):
    """The same in floating point, for long runs: log weights (normalised) and log evidence"""
    import numpy as np
    L = np.asarray(logL, dtype=np.longdouble)
    n = len(L)
    s = n - N + 1
    j = np.arange(s + 1, dtype=np.longdouble)
    lc = np.log1p(-np.longdouble(1) / N)
    X = np.concatenate([j * lc, (s + 1) * lc + np.log1p(-np.arange(N, dtype=np.longdouble) / N)])
    sh = X[:-1] + np.log(-np.expm1(X[1:] - X[:-1]))
    m = max(L)
    l = np.exp(np.concatenate([[-np.inf], L, [L[-1]]]) - m)
    lz = np.log(np.sum((l[:-1] + l[1:]) / 2 * np.exp(sh - sh[0]))) + sh[0] + m
    with np.errstate(divide='ignore'):
        w = L + sh[:-1]
    return w - lz, lz


def dataset(r, run, off, k0, dt):
    """A structured array like the nested samples: the number of the row identifies it"""
    import numpy as np
    d = np.zeros(len(run['L']), dtype=dt)
    for i, l in enumerate(run['L']):
        d['logL'][i] = off + math.log(l) if l > 0 else -math.inf
        d['x'][i] = k0 + i + 1
        d['y'][i] = r.gauss(0, 1) if r.random() < 0.9 else math.nan
        d['logPrior'][i] = r.choice([0.0, -1.5, -math.inf])
    return d


def numbers(rows, all_):
    """The numbers of the rows; 0 for one that is not as it was given"""
    out = []
    for q in rows:
        try:
            k = float(q['x'])
            ok = k == int(k) and 1 <= k <= len(all_) and q.tobytes() == all_[int(k) - 1].tobytes() and q.dtype == all_.dtype
        except Exception:
            ok = False
        out.append(int(k) if ok else 0)
    return out


def band(ev, k, n, p):
    sd = math.sqrt(max(n * p * (1 - p), 0.0))
    lo, hi = (n * p - 6 * sd - 2, n * p + 6 * sd + 2) if 0 < p < 1 else (n * p, n * p)
    ev.append({'a': 'Freq', 'k': int(k), 'lo': int(math.floor(lo + 1e-9)) if p < 1 else n, 'hi': int(math.ceil(hi - 1e-9)) if p > 0 else 0})


def case_run(job):
    """Small exact cases of the specification"""
    import numpy as np
    import cpnest.nest2pos as P
    np.random.seed(job['seed'] % 2 ** 32)
    r = random.Random(job['seed'])
    out = []
    for no, c in enumerate(job['cases']):
        ev = []
        dt = r.choice([[('x', 'f8'), ('y', 'f8'), ('logL', 'f8'), ('logPrior', 'f8')], [('logL', 'f8'), ('x', 'f8'), ('logPrior', 'f8'), ('y', 'f8')]])
        off = r.choice([0.0, 0.0, -1000.0, 7.5, 30000.0, -1e5])
        ds, k0, pos, best = [], 0, [], []
        for run, top in zip(c['runs'], c['top']):
            ds.append(dataset(r, run, off, k0, dt))
            pos += [w > 0 for w in run['W']]
            if top:
                best.append([k0 + i + 1 for i, w in enumerate(run['W']) if w == max(run['W'])])
            k0 += len(run['L'])
        All = np.concatenate(ds)
        keep = All.tobytes()
        Ns = [run['N'] for run in c['runs']]
        cfg = {'pos': pos, 'best': best, 'tol': 1000}
        lws = []

        def go():
            for run, d in zip(c['runs'], ds):
                lz, lw = P.compute_weights(d['logL'], run['N'])
                Z = F(run['Z2'], 2 * run['D'])
                tol = 1e9 / max(1.0, abs(off))
                zdev = cap(abs(float(lz) - off - math.log(Z)), tol)
                wdev, zeros = 0, True
                for w, g in zip(run['W'], lw):
                    if w > 0:
                        wdev = max(wdev, cap(abs(float(g) - math.log(F(w, run['D']) / Z)), tol)) if g == g else 10 ** 9
                    else:
                        zeros = zeros and g == -math.inf
                ev.append({'a': 'Weigh', 'zdev': zdev, 'wdev': wdev, 'len': len(lw) == len(d), 'zeros': bool(zeros)})
                lws.append(lw)
            M = job['draws']
            if len(ds) == 1:
                run, cnt, Wm = c['runs'][0], [0] * len(All), max(c['runs'][0]['W'])
                for k in range(M):
                    rows = numbers(P.draw_posterior(ds[0], lws[0]), All)
                    if k < 12:
                        ev.append({'a': 'Draw', 'rows': rows})
                    for i in rows:
                        cnt[i - 1] += 1
                for i, w in enumerate(run['W']):
                    band(ev, cnt[i], M, w / Wm)
                n = r.choice([0, 1, 2, 7, 400])
                ev.append({'a': 'DrawN', 'n': n, 'rows': numbers(P.draw_N_posterior(ds[0], lws[0], n), All)})
                rows = numbers(P.draw_N_posterior(ds[0], lws[0], M), All)
                ev.append({'a': 'DrawN', 'n': M, 'rows': rows})
                for i, w in enumerate(run['W']):
                    band(ev, rows.count(i + 1), M, w / sum(run['W']))
            sh = [F(s['n'], s['d']) for s in c['share']]
            cnt, M2 = [0] * len(All), M if len(ds) > 1 else M // 4
            for k in range(M2):
                rows = numbers(P.draw_posterior_many(ds, Ns), All)
                if k < 12:
                    ev.append({'a': 'Draw', 'rows': rows})
                for i in rows:
                    cnt[i - 1] += 1
            i = 0
            for run, s in zip(c['runs'], sh):
                for w in run['W']:
                    band(ev, cnt[i], M2, float(F(w, max(run['W'])) * s / max(sh)))
                    i += 1
            # fixed numbers: so many of each run as its evidence demands
            Zs = [F(run['Z2'], run['D']) for run in c['runs']]
            for n in (r.choice([1, 2]), r.choice([10, 37]), 1000):
                rows = numbers(P.draw_N_posterior_many(ds, Ns, n), All)
                want = [n * z / sum(Zs) for z in Zs]
                got, k0 = [], 0
                for run in c['runs']:
                    got.append(sum(1 for x in rows if k0 < x <= k0 + len(run['L'])))
                    k0 += len(run['L'])
                # a share halfway between two numbers may be rounded to either
                half = [abs(w - math.floor(w) - F(1, 2)) < F(1, 10 ** 6) for w in want]
                ev.append({'a': 'Shares', 'got': got, 'want': [g if h and abs(g - w) < 0.51 else int(math.floor(w + F(1, 2))) for g, w, h in zip(got, want, half)]})
                ev.append({'a': 'DrawN', 'n': sum(ev[-1]['want']), 'rows': rows})
            ev.append({'a': 'Untouched', 'ok': np.concatenate(ds).tobytes() == keep})
        crash(ev, go)
        out.append({'cfg': cfg, 'ev': ev, 'name': 'weights-%d-%d' % (job['no'], no), 'job': {'case': c}})
    return out


def long_run(job):
    """Long runs with real-valued likelihoods"""
    import numpy as np
    import cpnest.nest2pos as P
    g = np.random.default_rng(job['seed'])
    np.random.seed(job['seed'] % 2 ** 32)
    ev, R = [], job['runs']
    ds, refs, k0 = [], [], 0
    for N, n, kind in R:
        L = {'normal': lambda: g.normal(0, 3, n), 'peak': lambda: -np.exp(g.normal(0, 4, n)), 'flat': lambda: np.zeros(n), 'steps': lambda: np.floor(g.normal(0, 2, n)),
             'wide': lambda: g.normal(0, 500, n) - 3000}[kind]()
        L = np.sort(L) + job['off']
        if kind == 'steps':
            L[:min(n - 1, 3)] = -np.inf
        d = np.zeros(n, dtype=[('x', 'f8'), ('logL', 'f8'), ('logPrior', 'f8')])
        d['x'] = np.arange(k0 + 1, k0 + n + 1)
        d['logL'], d['logPrior'] = L, g.normal(size=n)
        k0 += n
        ds.append(d)
        refs.append(reference(N, L))
    All = np.concatenate(ds)
    keep = All.tobytes()
    Ns = [x[0] for x in R]
    sh = [z - math.log(x[1]) for (w, z), x in zip(refs, R)]
    # two rows are of maximal weight, or two runs of maximal share, when they cannot be told apart
    best, pos, i0 = [], [], 0
    for (w, z), s in zip(refs, sh):
        if s >= max(sh) - 1e-9 * max(1, abs(max(sh))):
            best.append([i0 + i + 1 for i in range(len(w)) if w[i] >= max(w) - 1e-9 * max(1, abs(z))])
        pos += [bool(x > -math.inf) for x in w]
        i0 += len(w)
    cfg = {'pos': pos, 'best': best, 'tol': 1000}

    def go():
        lws = []
        for (w, z), d, N in zip(refs, ds, Ns):
            lz, lw = P.compute_weights(d['logL'], N)
            tol = 1e9 / max(1.0, abs(float(z)), len(d))
            fin = np.isfinite(w)
            ev.append({'a': 'Weigh', 'zdev': cap(abs(float(lz - z)), tol), 'len': len(lw) == len(w),
                       'wdev': cap(np.max(np.abs(lw[fin] - w[fin])), tol) if len(lw) == len(w) else 10 ** 9, 'zeros': bool(len(lw) == len(w) and np.all(lw[~fin] == -np.inf))})
            lws.append(lw)
        for k in range(6):
            ev.append({'a': 'Draw', 'rows': numbers(P.draw_posterior_many(ds, Ns), All)})
        if len(ds) == 1:
            ev.append({'a': 'Draw', 'rows': numbers(P.draw_posterior(ds[0], lws[0]), All)})
            ev.append({'a': 'DrawN', 'n': 200, 'rows': numbers(P.draw_N_posterior(ds[0], lws[0], 200), All)})
        rows = numbers(P.draw_N_posterior_many(ds, Ns, 500), All)
        zs = np.array([float(z) for w, z in refs])
        want = 500 * np.exp(zs - zs.max()) / np.exp(zs - zs.max()).sum()
        got, k0 = [], 0
        for d in ds:
            got.append(sum(1 for x in rows if k0 < x <= k0 + len(d)))
            k0 += len(d)
        ev.append({'a': 'Shares', 'got': got, 'want': [x if abs(x - y) < 0.5 + 1e-6 else int(round(y)) for x, y in zip(got, want)]})
        # posterior mass per tenth of the rows, over many draws
        M = job['draws']
        cnt = np.zeros(len(All))
        for k in range(M):
            rows = P.draw_posterior_many(ds, Ns)
            np.add.at(cnt, rows['x'].astype(int) - 1, 1)
        p = np.concatenate([np.exp((w - max(w)).astype(float) + min(0.0, float(s - max(sh)))) for (w, z), s in zip(refs, sh)])
        for b in np.array_split(np.arange(len(All)), 10):
            m, sd = M * p[b].sum(), math.sqrt(M * (p[b] * (1 - p[b])).sum())
            ev.append({'a': 'Freq', 'k': int(cnt[b].sum()), 'lo': int(m - 6 * sd - 3), 'hi': int(m + 6 * sd + 3)})
        ev.append({'a': 'Untouched', 'ok': np.concatenate(ds).tobytes() == keep})
    crash(ev, go)
    return {'cfg': cfg, 'ev': ev, 'name': 'weights-long-%d' % job['no'], 'job': job}


def w_cfg(Ns, n, levels, runs, defects=(), emit=True):
    q = ', '.join('"%s"' % x for x in defects)
    return cfg_file('CONSTANTS Ns = {%s} MaxLen = %d Levels = {%s} MaxRuns = %d Defects = {%s} EmitOn = %s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
                    'INVARIANT Compression FinalSet Zeros Heavier Evidence Upper Distinct NoZero HasBest Emit\nCONSTRAINT NoDraw\n'
                    % (', '.join(map(str, Ns)), n, ', '.join(map(str, levels)), runs, q, 'TRUE' if emit else 'FALSE'))


def c18(chk):
    prepare()
    model = common.tlc('Weights', w_cfg((2, 3), tier(3, 4), (0, 1, 3), 2, emit=False), timeout=800)
    chk.model(model, 'Weights, exhaustively')
    for d in ('shellnext', 'nomax', 'repeat', 'zero', 'nolength', 'noevidence'):
        common.tlc('Weights', w_cfg((2, 3), 3, (0, 1, 3), 2, (d,), False), ok_rc=(12,))
    r = rng('C18')
    cs = generate('Weights', w_cfg((2, 3, 4), tier(4, 5), (0, 1, 2, 5), 1), chk=chk)
    two = together([lambda: generate('Weights', w_cfg((2, 3), 3, (0, 1, 4), 2), simulate=tier(800, 20000), depth=14, seeds=2, tag='2'),
                    lambda: generate('Weights', w_cfg((2, 3), 4, (1, 2), 3), simulate=tier(400, 6000), depth=22, seeds=2, tag='3')])
    two = [c for c in two if len(c['runs']) > 1]
    # the transcription used for long runs agrees with the specification
    for c in cs + two:
        for run in c['runs']:
            e = exact(run)
            if [F(x, run['D']) for x in run['X']] != e['X'] or [F(x, run['D']) for x in run['W']] != e['W'] or F(run['Z2'], run['D']) != e['Z2']:
                raise common.MachineryError('transcription of Weights.tla differs: %r' % run)
            w, z = reference(run['N'], [math.log(l) if l else -math.inf for l in run['L']])
            for a, b in zip(w, e['W']):
                if (b > 0) != bool(a > -math.inf) or b > 0 and abs(float(a) - math.log(2 * b / e['Z2'])) > 1e-12:
                    raise common.MachineryError('reference of Weights.tla differs: %r' % run)
    one = cs if common.THOROUGH else r.sample(cs, min(len(cs), 240))
    two = two if common.THOROUGH else r.sample(two, min(len(two), 160))
    cases = one + two
    r.shuffle(cases)
    jobs = [{'cases': cases[i:i + 8], 'seed': r.randrange(2 ** 31), 'no': i // 8, 'draws': tier(400, 2000)} for i in range(0, len(cases), 8)]
    traces = []
    for st, t in common.parallel(case_run, jobs, timeout=400):
        if st != 'ok':
            raise common.MachineryError('%s %s' % (st, t))
        traces += t
    chk.traces('WeightsTrace', traces, ['C18'])
    jobs, kinds = [], ['normal', 'peak', 'flat', 'steps', 'wide']
    for k in range(tier(60, 500)):
        m = r.choice([1, 1, 2, 3])
        rs = []
        for _ in range(m):
            N = r.choice([2, 5, 10, 50, 200])
            rs.append([N, r.choice([N, N + 1, N + r.randrange(2, 40), N * r.randrange(2, 12)]), r.choice(kinds)])
        jobs.append({'runs': rs, 'off': r.choice([0.0, 0.0, -2e4, 300.0]), 'seed': r.randrange(2 ** 31), 'no': k, 'draws': tier(60, 300)})
    run_all(chk, 'WeightsTrace', long_run, jobs, 'C18')
    chk.assumptions.append('long runs are compared with a floating-point transcription of Weights.tla that is itself compared with it on every small case; '
                           'frequencies within 6 standard deviations')


CHECKS = {'C18': c18}
