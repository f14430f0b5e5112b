"""C21: translation and matching depend on the given coefficients and
parameters only."""
import copy

from .. import calls, core, work

ID = 'C21'
RUNS = {'quick': 1800, 'thorough': 16000}
CAP = {'quick': 400, 'thorough': 1700}
RULE = ('A run is a program of 2-8 translations and matchings on 1-3 WC objects of any EFT and basis, with and without user parameters and '
        'sector selections, in one to three threads, with switches, interruptions and failing libraries; also translations '
        'that do not exist. Non-trivial: two calls returned (sequential) or a switch happened (threads).')
REAL = ['wilson/translate/', 'wilson/match/', 'wilson/util/', 'wilson/wcxf/classes.py', 'numpy', 'ckmutil', 'rundec']
STUBS = [work.STUB_DEFS]
ASSUMPTIONS = [work.ASSUME_DEFS, work.ASSUME_FORK, 'Results are compared with relative tolerance 1e-7.']
STATES = 'distinct windows of four calls (kind, outcome, hit); completion orders for threads'

FILES = ('wilson/translate/__init__.py', 'wilson/translate/wet.py', 'wilson/translate/smeft.py', 'wilson/wcxf/classes.py',
         'wilson/match/smeft.py', 'wilson/util/common.py', 'wilson/util/wet_jms.py')
PARAMS = [None, None, {}, {'Vcb': 0.04}, {'Vus': 0.23, 'gamma': 1.1}, {'m_b': 4.3, 'alpha_s': 0.12}, {'GF': 1.2e-5, 'm_c': 1.2},
          {'alpha_e': 0.0073}, {'m_s': 0.1, 'Vub': 0.004}]
TR = [('SMEFT', 'Warsaw', ['Warsaw up', 'Warsaw mass', 'Higgs-Warsaw up']), ('SMEFT', 'Warsaw up', ['Warsaw', 'Higgs-Warsaw up']),
      ('SMEFT', 'Higgs-Warsaw up', ['Warsaw', 'Warsaw up']), ('WET-3', 'Bern', ['JMS', 'flavio']),
      ('WET', 'JMS', ['flavio', 'Bern', 'formflavor', 'FlavorKit', 'EOS']), ('WET', 'flavio', ['JMS', 'Bern']),
      ('WET', 'Bern', ['JMS', 'flavio']), ('WET-4', 'JMS', ['flavio', 'Bern']), ('WET-4', 'flavio', ['JMS', 'Bern']),
      ('WET-4', 'Bern', ['JMS', 'flavio']), ('WET-3', 'JMS', ['flavio', 'Bern']), ('WET-3', 'flavio', ['JMS', 'Bern']),
      ('WET', 'FlavorKit', ['JMS', 'flavio'])]
MATCH = {('SMEFT', 'Warsaw'): [('WET', 'JMS'), ('WET', 'flavio'), ('WET', 'Bern')], ('SMEFT', 'Warsaw up'): [('WET', 'JMS'), ('WET', 'flavio')],
         ('WET', 'JMS'): [('WET-4', 'JMS')], ('WET', 'flavio'): [('WET-4', 'flavio')], ('WET-4', 'JMS'): [('WET-3', 'JMS')],
         ('WET-3', 'JMS'): [('WET-2', 'JMS')], ('WET-4', 'Bern'): [('WET-3', 'Bern')], ('WET-4', 'flavio'): [('WET-3', 'flavio')],
         ('WET', 'Bern'): [('WET-4', 'Bern')]}
SC = {'SMEFT': [91.1876, 160.0, 1000.0], 'WET': [160.0, 91.1876, 4.8, 4.2], 'WET-4': [4.2, 2.0], 'WET-3': [2.0, 1.3]}
LIB = [('ckm_tree', 'MemoryError'), ('ckmutil', 'LinAlgError'), ('rundec', 'MemoryError'), ('einsum', 'MemoryError'), ('alphas', 'zero'),
       ('pkgutil.get_data', 'OSError')]


def gen_obj(rng):
    eft, basis, _ = rng.choice(TR)
    if eft == 'SMEFT' and rng.random() < 0.4:
        eft, basis, _ = rng.choice(TR[3:])
    return {'t': 'wc', 'spec': work.point(rng, eft, basis, rng.choice(SC[eft]), dense=0.2)}


def near(rng, par):
    """Parameters that differ a little from these."""
    par = dict(par or {})
    ks = sorted(k for k in par if k != 'loop_order')
    k = rng.choice(ks or ['Vcb', 'Vus', 'gamma', 'm_b'])
    v = par.get(k, {'Vcb': 0.042, 'Vus': 0.225, 'gamma': 1.15, 'm_b': 4.2}.get(k))
    par[k] = v * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-4, -2))
    return par


def gen_call(rng, objs, k):
    s = objs[k]['spec']
    par = rng.choice(PARAMS)
    m = MATCH.get((s['eft'], s['basis']))
    if m and rng.random() < 0.35:
        eft, basis = rng.choice(m)
        if eft == 'WET' and rng.random() < 0.25:
            par = dict(par or {}, loop_order=rng.choice([0, 1]))
        return {'k': 'match', 'o': k, 'eft': eft, 'basis': basis, 'parameters': par}
    to = rng.choice([t for e, b, ts in TR if (e, b) == (s['eft'], s['basis']) for t in ts])
    c = {'k': 'tr', 'o': k, 'to': to, 'parameters': par}
    if rng.random() < 0.04:
        c['to'] = rng.choice(['no such basis', s['basis'], 'EOS'])
    if s['eft'] != 'SMEFT' and rng.random() < 0.2:
        ss = work.eft_sectors(s['eft'])
        c['sectors'] = sorted(rng.sample(ss, min(len(ss), rng.choice([1, 2]))))
    return c


def canon(plan, c):
    s = plan['objs'][c['o']]['spec']
    ex = {'t': 'wc', 'spec': work.point(core.rng_of('example', s['eft'], s['basis']), s['eft'], s['basis'], SC[s['eft']][0], 8)}
    d = dict(c, o=0)
    d.pop('sectors', None)
    if d.get('parameters') is not None:
        d['parameters'] = {'loop_order': 1} if d['parameters'].get('loop_order') == 1 else {}
    return [ex], d


def generate(rng, i):
    objs = [gen_obj(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    twin = None
    if rng.random() < 0.4:
        o = copy.deepcopy(rng.choice(objs))
        o['spec']['scale'] = rng.choice(SC[o['spec']['eft']])
        objs.append(o)
    elif rng.random() < 0.3:
        o = copy.deepcopy(rng.choice(objs))
        o['spec'] = work.sibling(rng, o['spec'])
        objs.append(o)
        twin = len(objs) - 1
    nt = 1 if rng.random() < 0.65 else rng.choice([2, 2, 3])
    n = rng.choice([2, 3, 4, 6]) if nt == 1 else rng.choice([1, 2])
    pool = [gen_call(rng, objs, k) for k in range(len(objs)) for _ in range(2)]
    if twin:
        pool += [dict(c, o=twin) for c in pool if c['o'] < twin and objs[c['o']]['spec']['basis'] == objs[twin]['spec']['basis']
                 and objs[c['o']]['spec']['eft'] == objs[twin]['spec']['eft']]
    # the same call with other parameters
    for c in list(pool):
        if rng.random() < 0.5:
            pool.append(dict(c, parameters=rng.choice(PARAMS)))
        elif rng.random() < 0.2:
            pool.append(dict(c, parameters=near(rng, c['parameters'])))
    plan = {'explicit': rng.random() < 0.3, 'objs': objs, 'threads': [[rng.choice(pool) for _ in range(n)] for _ in range(nt)], 'faults': []}
    if nt > 1:
        calls.add_switches(rng, plan, canon, prefer=FILES)
        if rng.random() < 0.3:
            calls.add_raises(rng, plan, canon, prefer=FILES)
    else:
        if rng.random() < 0.4:
            calls.add_lib(rng, plan, LIB, 1, rng.choice([1, 3, 10]))
        if rng.random() < 0.5:
            calls.add_raises(rng, plan, canon, 1, prefer=FILES)
        plan['threads'][0].append(dict(rng.choice(plan['threads'][0])))
    return plan


def more(plan, c):
    s = plan['objs'][c['o']]['spec']
    if c.get('parameters'):
        return ['global']
    if c['k'] == 'match' and s['eft'] == 'SMEFT' and c['basis'] != 'JMS':
        return []           # two sets of defaults are in use
    return ['explicit'] if plan.get('explicit') else []


def judge(plan, obs, refs):
    return calls.judge(plan, obs, refs, more=more)


execute = calls.execute
fix_shrunk = calls.fix_shrunk


def reference(name, *a):
    return {'call': calls.ref_call, 'global': calls.ref_global, 'explicit': calls.ref_explicit}[name](*a)
