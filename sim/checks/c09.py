"""C09: SMEFT running is independent of history and never returns a partial
integration."""
from .. import calls, core, work

ID = 'C09'
RUNS = {'quick': 260, 'thorough': 2500}
CAP = {'quick': 400, 'thorough': 1700}
RULE = ('A run is a program of 2-5 SMEFT computations (construction with extraction of Standard Model parameters, leading-log and integrated '
        'running, parameter extraction) on 1-2 points, with early-stopping or failing integrator, failing root finder, linear algebra and '
        'contractions, interruptions. Non-trivial: at least two calls returned.')
REAL = ['wilson/run/smeft/', 'wilson/util/common.py', 'wilson/wcxf/classes.py', 'numpy', 'scipy', 'ckmutil']
STUBS = [work.STUB_DEFS]
ASSUMPTIONS = [work.ASSUME_DEFS, work.ASSUME_FORK, 'Results are compared with relative tolerance 1e-7.',
               'An integrator that stops early returns success=False and the solution so far, as scipy documents.']
STATES = 'distinct windows of four calls (kind, outcome, hit)'

FILES = ('wilson/run/smeft/classes.py', 'wilson/run/smeft/rge.py', 'wilson/run/smeft/smpar.py')
LIB = [('solve_ivp', ['incomplete', 0.3]), ('solve_ivp', ['incomplete', 0.8]), ('solve_ivp', ['incomplete', 0.0]), ('solve_ivp', ['incomplete', 0.95, 7]), ('solve_ivp', ['incomplete', 1.0, 5]),
       ('brentq', 'RuntimeError'), ('brentq', 'unconverged'), ('brentq', 'unconverged'), ('einsum', 'MemoryError'), ('ckmutil', 'LinAlgError'), ('solve_ivp', 'MemoryError'),
       ('ckm_tree', 'MemoryError')]
SCALES = [1000.0, 2000.0, 500.0, 160.0, 91.1876, 5000.0]


def gen_spec(rng):
    like = rng.choice([None, None, 'phi', 'G', 'll', 'qq'])
    s = work.point(rng, 'SMEFT', 'Warsaw', rng.choice(SCALES), rng.choice([1, 2, 3, 5]), like=like)
    if rng.random() < 0.4:
        s['values']['phiWB'] = round(rng.uniform(-1, 1), 3) * 1e-8        # needs the root finder
    return s


def gen_call(rng, k, wc):
    r = rng.random()
    acc = 'leadinglog' if rng.random() < 0.75 else 'integrate'
    if wc:
        return {'k': 'smeft_new', 'o': k, 'scale': rng.choice(SCALES), 'acc': acc}
    if r < 0.15:
        return {'k': 'smpar', 'o': k, 'acc': 'leadinglog'}
    if r < 0.2:
        return {'k': 'smeft', 'o': k, 'scale': rng.choice(SCALES), 'acc': 'exact'}
    if r < 0.32:
        return {'k': 'smeftpar', 'o': k, 'basis': rng.choice(['Warsaw', 'Warsaw up', 'Warsaw up'])}
    c = {'k': 'smeft', 'o': k, 'scale': rng.choice(SCALES), 'acc': acc}
    if acc == 'integrate' or r < 0.45:
        c.update(acc='integrate', kw=rng.choice([{}, {'rtol': 0.1, 'atol': 1.0}, {'method': 'RK23', 'rtol': 0.01}, {'rtol': 1e-4}]))
    return c


def gen_cont(rng, k, spec):
    b = rng.choice([x for x in SCALES if x != spec['scale']])
    a = spec['scale']
    return {'k': 'smeft_cont', 'o': k, 'scale': b, 'at': rng.choice([a, b, round((a * b) ** 0.5, 3)])}


def canon(plan, c):
    spec = work.point(core.rng_of('example'), 'SMEFT', 'Warsaw', 1000.0, 5)
    spec['values']['phiWB'] = 1e-9
    o = {'t': 'wc' if c['k'] == 'smeft_new' else 'smeft', 'spec': spec}
    ex = {'k': c['k'], 'o': 0, 'acc': 'leadinglog' if c.get('acc') != 'integrate' else 'integrate'}
    if c['k'] == 'smeft_cont':
        ex = dict(c, o=0)
    elif c['k'] == 'smeftpar':
        ex = {'k': 'smeftpar', 'o': 0, 'basis': c['basis']}
    elif c['k'] != 'smpar':
        ex['scale'] = 160.0
    return [o], ex


def generate(rng, i):
    objs, pool = [], []
    for _ in range(rng.choice([1, 1, 2])):
        t = rng.choice(['wc', 'smeft'])
        objs.append({'t': t, 'spec': gen_spec(rng)})
        k = len(objs) - 1
        pool += [gen_call(rng, k, t == 'wc') for _ in range(2)]
        if t == 'smeft' and rng.random() < 0.25:
            pool.append(gen_cont(rng, k, objs[k]['spec']))
        if t == 'wc' and rng.random() < 0.3:
            objs.append({'t': 'smeft', 'spec': objs[-1]['spec']})
            pool.append(gen_call(rng, k + 1, False))
    n = rng.choice([1, 2, 3])
    th = [rng.choice(pool) for _ in range(n)]
    if rng.random() < 0.35:
        # the same call for a point with the same coefficients at the same scale
        c = rng.choice(th)
        o = objs[c['o']]
        objs.append({'t': o['t'], 'spec': work.sibling(rng, o['spec'])})
        th.append(dict(c, o=len(objs) - 1))
        n += 1
    plan = {'objs': objs, 'threads': [th], 'faults': []}
    r = rng.random()
    if r < 0.65:
        i = rng.randrange(n)
        lib, act = rng.choice(LIB)
        n = rng.choice([1, 1, 2, 3])
        if lib == 'brentq':                 # used by the constructor only
            ks = [k for k, o in enumerate(objs) if o['t'] == 'wc']
            if not ks:
                objs.append({'t': 'wc', 'spec': gen_spec(rng)})
                ks = [len(objs) - 1]
            k = rng.choice(ks)
            objs[k]['spec']['values']['phiWB'] = 3e-9
            th[i] = gen_call(rng, k, True)
            n = rng.choice([1, 2, 2])
        plan['faults'].append({'op': i, 'lib': lib, 'act': act, 'call': n})
    if r > 0.55:
        calls.add_raises(rng, plan, canon, 1, prefer=FILES)
    th.append(dict(rng.choice(th)))
    return plan


execute = calls.execute
judge = calls.judge
fix_shrunk = calls.fix_shrunk


def reference(name, *a):
    return calls.ref_call(*a)
