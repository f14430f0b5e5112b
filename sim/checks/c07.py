"""C07: QCD running functions depend on their arguments only."""
from .. import calls, core, work
from ..core import Violation, outcome

ID = 'C07'
RUNS = {'quick': 2200, 'thorough': 60000}
CAP = {'quick': 300, 'thorough': 1200}
RULE = ('A run is a program of 3-60 calls of alpha_s, m_b, m_c, m_s in one to three threads, arguments positional or by name, many repeats, sometimes '
        'more distinct calls than the memo tables hold, with thread switches, interruptions and failing RunDec calls. '
        'Non-trivial: at least two calls returned (sequential) or at least one switch happened (threads).')
REAL = ['wilson/util/qcd.py', 'rundec']
STUBS = [work.STUB_DEFS]
ASSUMPTIONS = [work.ASSUME_FORK, 'The three-loop prescription with thresholds 4.8/170/1.3 GeV and RunDec itself are taken as given: '
               'the oracle states it directly on the library.']
STATES = 'distinct (kind, outcome, hit) windows of four calls; order of completion for threads'

FILES = ('wilson/util/qcd.py',)
SCALES = [1.0, 1.3, 2.0, 2, 2.5, 3.0, 4.2, 4.8, 5.0, 10.0, 50.0, 91.1876, 91.1876, 100.0, 160.0, 200.0, 500.0, 1000.0]
REFM = {'m_b': [4.2, 4.18, 4.163], 'm_c': [1.27, 1.3, 1.2], 'm_s': [0.095, 0.1, 0.0022, 0.0047]}
LIB = [('rundec', 'MemoryError'), ('alphas', 'zero'), ('rundec', 'RuntimeError')]


def gen_call(rng):
    f = rng.choice(['alpha_s', 'alpha_s', 'm_b', 'm_c', 'm_s'])
    nf = rng.choice([3, 4, 5, 5, 6] if f in ('alpha_s', 'm_b') else [3, 4, 5])
    scale = rng.choice(SCALES) if rng.random() < 0.75 else round(rng.uniform(0.9, 300), 3)
    if f == 'm_s' and rng.random() < 0.2:
        scale, nf = 2, 3
    if rng.random() < 0.04:
        scale = rng.choice([0, -1.0, 0.2, 0.5, '1.0'])
    if rng.random() < 0.04:
        nf = rng.choice([2, 7, 6])
    args = [scale, nf] if f == 'alpha_s' else [rng.choice(REFM[f]), scale, nf]
    kw = {}
    if f != 'alpha_s' and rng.random() < 0.05:
        args[1] = args[0]                   # at the reference scale itself
    if rng.random() < 0.5:
        a = rng.choice([0.1185, 0.1181, 0.12, 0.1185])
        if rng.random() < 0.5:
            args.append(a)
        else:
            kw['alphasMZ'] = a
    if rng.random() < 0.4:
        kw['loop'] = rng.choice([1, 2, 3, 3, 4, 5])
        if len(args) == (3 if f == 'alpha_s' else 4) and rng.random() < 0.5:
            args.append(kw.pop('loop'))
    if rng.random() < 0.1 and f == 'alpha_s':
        kw.update(scale=args[0], f=args[1])
        if len(args) > 2:
            kw['alphasMZ'] = args[2]
        if len(args) > 3:
            kw['loop'] = args[3]
        args = []
    return {'k': 'qcd', 'f': f, 'args': args, 'kw': kw}


def near(rng, c):
    """The same call with one number a little different."""
    d = dict(c, kw=dict(c['kw']), args=list(c['args']))
    e = 1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -2)
    a = _args(c['f'], c['args'], c['kw'])
    names = [k for k in ('m', 'scale', 'alphasMZ') if isinstance(a.get(k), (int, float)) and a[k] > 1e-3]
    if not names:
        return None
    k = rng.choice(names)
    if k in d['kw'] or k == 'alphasMZ' and len(d['args']) < (3 if c['f'] == 'alpha_s' else 4):
        d['kw'][k] = a[k] * e
        return d
    order = ['scale', 'f', 'alphasMZ', 'loop'] if c['f'] == 'alpha_s' else ['m', 'scale', 'f', 'alphasMZ', 'loop']
    d['args'][order.index(k)] = a[k] * e
    return d


def canon(plan, c):
    d = _args(c['f'], c['args'], c['kw'])
    a = [50.0, d['f']]
    return [], {'k': 'qcd', 'f': c['f'], 'args': a if c['f'] == 'alpha_s' else [REFM[c['f']][0]] + a, 'kw': {}}


def generate(rng, i):
    mode = rng.random()
    n = rng.choice([3, 6, 12, 25]) if mode < 0.8 else rng.choice([45, 70])
    nt = 1 if mode < 0.6 or n > 30 else rng.choice([2, 3])
    pool = [gen_call(rng) for _ in range(max(2, n // rng.choice([1, 2, 4])))]
    # neighbours that differ in one argument only
    for c in list(pool)[:6]:
        d = dict(c, kw=dict(c['kw']), args=list(c['args']))
        d['kw']['loop'] = rng.choice([1, 2, 4]) if len(d['args']) < (4 if c['f'] == 'alpha_s' else 5) else d['kw'].get('loop')
        if d['kw']['loop'] is not None:
            pool.append(d)
    for c in rng.sample(pool, min(len(pool), rng.choice([0, 1, 3]))):
        d = near(rng, c)
        if d:
            pool += [d, d]
    ths = [[rng.choice(pool) for _ in range(max(1, n // nt))] for _ in range(nt)]
    plan = {'objs': [], 'threads': ths, 'faults': []}
    if nt > 1:
        calls.add_switches(rng, plan, canon, prefer=FILES)
        if rng.random() < 0.3:
            calls.add_raises(rng, plan, canon, prefer=FILES)
    else:
        if rng.random() < 0.5:
            calls.add_lib(rng, plan, LIB, rng.choice([1, 2, 4]), 3)
        if rng.random() < 0.4:
            calls.add_raises(rng, plan, canon, rng.choice([1, 2]), prefer=FILES)
    return plan


execute = calls.execute
fix_shrunk = calls.fix_shrunk


_MODEL = {}


def judge(plan, obs, refs):
    """The oracle is the prescription; where it does not say what to expect
    (bad types, errors of the library), a fresh process."""
    out = []
    if obs.get('failure'):
        out.append(Violation(*obs['failure']))
    rest = []
    for ent in obs['trace']:
        t, i, hit, r = ent
        c = plan['threads'][t][i]
        if r[0] == 'err' and hit:
            continue
        k = repr(c)
        if k not in _MODEL:
            with core.quiet():
                _MODEL[k] = model(c)
        m = _MODEL[k]
        if m[0] == 'skip':
            rest.append(ent)
        elif r[0] != m[0] or (r[0] == 'ok' and not (abs(r[1] - m[1]) <= 1e-11 * abs(m[1]) or r[1] != r[1] and m[1] != m[1])) \
                or (r[0] == 'err' and r[1] != m[1]):
            out.append(Violation('not-the-prescription', '%r gives %r, the RunDec prescription gives %r' % (c, r[1:], m[1:])))
    return out + calls.judge(plan, dict(obs, trace=rest, failure=None), refs, rtol=1e-12)


def reference(name, *a):
    return calls.ref_call(*a)


# ---------------------------------------------------------------------------
# the prescription, written on RunDec directly

def _args(fn, args, kw):
    names = ['scale', 'f', 'alphasMZ', 'loop'] if fn == 'alpha_s' else ['m', 'scale', 'f', 'alphasMZ', 'loop']
    d = dict(alphasMZ=0.1185, loop=3)
    d.update(zip(names, args))
    d.update(kw)
    return d


def model(c):
    d = _args(c['f'], c['args'], c['kw'])
    if any(isinstance(v, str) for v in d.values()):
        return ('skip',)
    try:
        v = (_alphas(d['scale'], d['f'], d['alphasMZ'], d['loop']) if c['f'] == 'alpha_s'
             else _mass(c['f'], d['m'], d['scale'], d['f'], d['alphasMZ'], d['loop']))
    except ValueError as e:
        return ('err', 'ValueError', str(e))
    except RuntimeError as e:
        return ('skip',)
    return ('ok', float(v))


def _thr(crd, m, nf):
    crd.nfMmu.Mth = m
    crd.nfMmu.muth = m
    crd.nfMmu.nf = nf
    return crd.nfMmu


def _alphas(mu, f, a, loop):
    import rundec
    mz = 91.1876
    if mu == mz and f == 5:
        return a
    if mu <= 0 or not 3 <= f <= 6:
        raise ValueError('insane')
    c = rundec.CRunDec()
    if f == 5:
        v = c.AlphasExact(a, mz, mu, 5, loop)
    elif f == 6:
        v = c.AlL2AlH(a, mz, _thr(c, 170, 6), mu, loop)
    elif f == 4:
        v = c.AlH2AlL(a, mz, _thr(c, 4.8, 5), mu, loop)
    else:
        amc = c.AlH2AlL(a, mz, _thr(c, 4.8, 5), 1.3, loop)
        c = rundec.CRunDec()
        v = c.AlH2AlL(amc, 1.3, _thr(c, 1.3, 4), mu, loop)
    if v == 0:
        raise ValueError('zero')
    return v


def _mass(which, m, mu, f, a, loop):
    import rundec
    home = {'m_b': 5, 'm_c': 4, 'm_s': 3}[which]
    start = 2 if which == 'm_s' else m
    if mu == start and (f == home or which == 'm_c'):
        return m
    if mu <= 0 or not 3 <= f <= 6:
        raise ValueError('insane')
    as0 = _alphas(start, home, a, loop)
    c = rundec.CRunDec()
    if f == home:
        return c.mMS2mMS(m, as0, _alphas(mu, f, a, loop), f, loop)
    if which == 'm_b' and f == 4:
        return c.mH2mL(m, as0, start, _thr(c, 4.8, 5), mu, loop)
    if which == 'm_b' and f == 6:
        return c.mL2mH(m, as0, start, _thr(c, 170, 6), mu, loop)
    if which == 'm_b' and f == 3:
        x = c.mH2mL(m, as0, start, _thr(c, 4.8, 5), 1.3, loop)
        return c.mH2mL(x, _alphas(1.3, 4, a, loop), 1.3, _thr(rundec.CRunDec(), 1.3, 4), mu, loop)
    if which == 'm_c' and f == 3:
        return c.mH2mL(m, as0, start, _thr(c, 1.3, 4), mu, loop)
    if which == 'm_c' and f == 5:
        return c.mL2mH(m, as0, start, _thr(c, 4.8, 5), mu, loop)
    if which == 'm_s' and f == 4:
        return c.mL2mH(m, as0, start, _thr(c, 1.3, 4), mu, loop)
    if which == 'm_s' and f == 5:
        x = c.mL2mH(m, as0, start, _thr(c, 1.3, 4), 1.3, loop)
        return c.mL2mH(x, _alphas(1.3, 4, a, loop), 1.3, _thr(rundec.CRunDec(), 4.8, 5), mu, loop)
    raise ValueError('no such case')
