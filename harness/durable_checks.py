"""C09: a kill while a checkpoint is written never costs the previous one. Model: spec/Durable.tla; trace specification: spec/DurableTrace.tla.

The real checkpoints are stopped before every file operation by a preloaded library (native/gate.c) and killed, interrupted or starved of disk space there;
after every single operation a copy of the folder is resumed with the real code (what a kill at this moment would leave)."""
import json, os, subprocess, sys, time
import boot
from common import MachineryError, NCPU, Scratch, cfg_file, generate, rng, tier, tlc

HERE = os.path.dirname(os.path.abspath(__file__))
WAYS = {'ns': ['direct', 'signal', 'periodic'], 'mhs': ['direct', 'flag', 'message', 'periodic', 'signal'],
        'hmc': ['direct', 'flag', 'message', 'periodic'], 'sli': ['direct', 'flag', 'message', 'periodic', 'signal']}
CFG = ('CONSTANTS Members = {%s} Parts = %d MaxOps = %d MaxHist = %d Defects = {%s} EmitOn = %s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n%s\nINVARIANT %s\n')


def cfg(members, parts, ops, hist, defects=(), emit=False, view=True, inv='Kept Always NeverLost'):
    return cfg_file(CFG % (', '.join(map(str, members)), parts, ops, hist, ', '.join('"%s"' % d for d in defects), 'TRUE' if emit else 'FALSE',
                           'VIEW View' if view else '', 'Emit' if emit else inv))


def job(name, kinds, ways, ops, r, parts=2):
    """ops speak of the members after the nested sampler, unless the nested sampler is one of them"""
    hmc = 'hmc' in kinds
    return dict(name=name, kinds=kinds, ways=ways, model=r.choice(['Gauss2', 'Prior', 'Gauss3'] if not hmc else ['Gauss2', 'Gauss3']), nlive=r.choice([10, 40]),
                poolsize=24 if hmc else r.choice([8, 24, 50]), maxmcmc=r.choice([12, 40]), verbose=r.choice([0, 0, 3]), seed=r.randrange(10 ** 6), grow=r.choice([3, 60, 400]),
                parts=parts, guess=6, ops=ops)


def every(kind, way, r, faults=('kill', 'full', 'term')):
    """All crash points of the first and of a later checkpoint of one member: at stop after stop, a fault, then a resume"""
    kinds = ['ns'] if kind == 'ns' else ['ns', kind]
    m = len(kinds)
    whole = lambda x: [{'op': 'begin', 'm': x}] + [{'op': 'step', 'm': x}] * 4
    out = []
    for f in faults:
        for first in (True, False):
            ops = [] if kind == 'ns' else whole(1)
            if not first:
                ops += whole(m)
            for n in range(7):
                ops += [{'op': 'begin', 'm': m}] + [{'op': 'each', 'm': m}] * n + [{'op': f, 'm': m}]
                if f == 'term':
                    ops += [{'op': 'each', 'm': m}] * (n % 4) + [{'op': 'kill', 'm': m}]
                ops += [{'op': 'resume', 'm': 0}]
            out.append(job('every-%s-%s-%s-%s' % (kind, way, f, 'first' if first else 'later'), kinds, ['direct' if kind != 'ns' else way] + [way] * (m - 1), ops, r))
    return out


def pairs(behaviours, r, kinds2, tag):
    out = []
    for i, b in enumerate(behaviours):
        k = r.choice(kinds2)
        if k[0] == 'ns':
            kinds, shift, pre = list(k), 0, []
        else:
            kinds, shift = ['ns'] + sorted(k, key=['mhs', 'hmc', 'sli'].index), 1
            pre = [{'op': 'begin', 'm': 1}] + [{'op': 'step', 'm': 1}] * 4
        ops = pre + [dict(o, m=o['m'] + shift if o['m'] else 0) for o in b['ops']]
        out.append(job('%s-%s-%d' % (tag, '-'.join(kinds), i), kinds, [r.choice(WAYS[x]) for x in kinds], ops, r))
    return out


def run_jobs(jobs, timeout=300):
    """The scenarios, in worker processes with the gate preloaded"""
    with Scratch('cpv-dur-') as d:
        so = os.path.join(d, 'gate.so')
        p = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so, os.path.join(HERE, 'native', 'gate.c'), '-ldl'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise MachineryError('the gate does not compile: ' + p.stdout)
        boot.build()
        order = sorted(range(len(jobs)), key=lambda i: -len(jobs[i]['ops']))
        parts = [[jobs[i] for i in order[k::NCPU]] for k in range(NCPU)]
        ps = []
        for i, js in enumerate(parts):
            if not js:
                continue
            f = os.path.join(d, 'job%d.json' % i)
            with open(f, 'w') as h:
                json.dump(js, h)
            o = os.path.join(d, 'out%d.json' % i)
            e = dict(os.environ, LD_PRELOAD=so, PYTHONDONTWRITEBYTECODE='1', TMPDIR=d, MPLBACKEND='Agg')
            ps.append((subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(HERE, 'durable_worker.py'), f, o], env=e, stdout=subprocess.DEVNULL,
                                        stderr=open(os.path.join(d, 'err%d' % i), 'w'), start_new_session=True), o, os.path.join(d, 'err%d' % i)))
        out, t0 = [], time.time()
        for p, o, err in ps:
            try:
                p.wait(max(1, timeout - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                pass
            finally:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
            if not os.path.exists(o):
                raise MachineryError('a worker of the checkpoints gave no result: ' + open(err).read()[-3000:])
            with open(o) as h:
                out += json.load(h)
        return out


def c09(chk):
    chk.model(tlc('Durable', cfg((1, 2), 2, 3, 100)), 'Durable, two members, two parts, three checkpoints each: exhaustive')
    if tier(False, True):
        chk.model(tlc('Durable', cfg((1, 2, 3), 2, 2, 100), timeout=900), 'Durable, three members: exhaustive')
    for d in ('inplace', 'sharedtmp', 'unlinkfirst', 'early'):
        r = tlc('Durable', cfg((1, 2), 2, 3, 100, [d]), ok_rc=None)
        if 'is violated' not in r.out:
            raise MachineryError('the model does not notice the defect %s' % d)
    r = rng('c09')
    jobs = []
    for kind in ('ns', 'mhs', 'hmc', 'sli'):
        for way in WAYS[kind]:
            jobs += every(kind, way, r, faults=('kill', 'full', 'term') if way in ('direct', 'periodic') or tier(False, True) else ('kill',))
    g = generate('Durable', cfg((1, 2), 2, 4, 36, emit=True, view=False), simulate=tier(60, 400), depth=60, seeds=tier(2, 8), tag='two')
    r.shuffle(g)
    k2 = [('ns', 'mhs'), ('ns', 'hmc'), ('ns', 'sli'), ('mhs', 'hmc'), ('mhs', 'mhs'), ('mhs', 'sli'), ('hmc', 'sli'), ('sli', 'sli'), ('hmc', 'hmc')]
    jobs += pairs(g[:tier(80, 1200)], r, k2, 'two')
    g3 = generate('Durable', cfg((1, 2, 3), 2, 3, 40, emit=True, view=False), simulate=tier(40, 300), depth=60, seeds=tier(1, 8), tag='three')
    r.shuffle(g3)
    jobs += pairs(g3[:tier(16, 400)], r, [('ns', 'mhs', 'hmc'), ('ns', 'mhs', 'sli'), ('mhs', 'hmc', 'sli')], 'three')
    tr = run_jobs(jobs, timeout=tier(300, 800))
    chk.cov['fault_sequences'] = len(tr)
    chk.cov['crash_points_resumed'] = sum(t['looks'] for t in tr)
    chk.cov['system_calls_seen'] = sorted({s for t in tr for s in t['sys'] if not s.endswith('!')})
    chk.cov['samples'].append({'scenario': tr[0]['name'], 'system_calls': tr[0]['sys'][:12], 'counts': tr[0]['counts']})
    if not any(t['sys'] for t in tr):
        raise MachineryError('no file operation of any checkpoint was seen')
    chk.traces('DurableTrace', tr)
    for v in chk.viols:
        if v.trace and v.detail is None and v.index is not None:
            v.detail = v.trace['ev'][v.index].get('note') or None
    chk.assumptions += ['crash points are those between the system calls that open, write, truncate, close, rename, link or unlink files below the output folder, and in the middle of every write; what was written before a kill stays written (no loss of power)']


CHECKS = {'C09': c09}
