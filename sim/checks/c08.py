"""C08: WET running is independent of history, threads and failures."""
import copy

from .. import calls, core, work

ID = 'C08'
RUNS = {'quick': 900, 'thorough': 12000}
CAP = {'quick': 400, 'thorough': 1700}
RULE = ('A run is a program of 2-10 WET runs on 1-4 runner objects of any WET EFT (with own parameters and orders), some with sector '
        'selections, in one to three threads, with switches, interruptions, failing linear algebra and RunDec calls. '
        'Non-trivial: two runs returned (sequential) or a switch happened (threads).')
REAL = ['wilson/run/wet/', 'wilson/util/qcd.py', 'wilson/wcxf/classes.py', 'numpy', 'rundec']
STUBS = [work.STUB_DEFS]
ASSUMPTIONS = [work.ASSUME_DEFS, work.ASSUME_FORK, 'Results are compared with relative tolerance 1e-7.']
STATES = 'distinct windows of four calls (kind, outcome, hit); completion orders for threads'

FILES = ('wilson/run/wet/rge.py', 'wilson/run/wet/classes.py', 'wilson/util/qcd.py')
SC = {'WET': [160.0, 91.1876, 80.0, 10.0, 5.0, 4.2], 'WET-4': [4.2, 4.0, 3.0, 2.0], 'WET-3': [2.0, 1.5, 1.3, 1.0]}
LIB = [('linalg.eig', 'LinAlgError'), ('linalg.inv', 'LinAlgError'), ('rundec', 'MemoryError'), ('alphas', 'zero'),
       ('linalg.eig', 'MemoryError')]
PARAMS = [{}, {'m_b': 4.3}, {'alpha_s': 0.1181}, {'alpha_e': 0.0073, 'm_c': 1.2}, {'m_s': 0.1}, {'m_c': 1.2}, {'m_u': 0.003, 'm_d': 0.005},
          {'m_tau': 1.8, 'm_mu': 0.11}, {'alpha_e': 0.0073}]


def gen_obj(rng, eft=None):
    eft = eft or rng.choice(['WET', 'WET', 'WET-4', 'WET-3'])
    like = rng.choice([None, None, 'gamma', 'G_', 'S1', 'V1'])
    o = {'t': 'wet', 'spec': work.point(rng, eft, 'JMS', rng.choice(SC[eft]), like=like, dense=0.4)}
    if rng.random() < 0.4:
        o['parameters'] = rng.choice(PARAMS)
    if rng.random() < 0.5:
        o['qed_order'] = rng.choice([0, 1])
        o['qcd_order'] = rng.choice([0, 1])
    return o


def near(rng, par):
    """Parameters that differ a little from these."""
    par = dict(par or {})
    k = rng.choice(sorted(par) or ['alpha_s', 'm_b', 'alpha_e'])
    v = par.get(k, {'alpha_s': 0.1185, 'm_b': 4.2, 'alpha_e': 0.00781}.get(k))
    par[k] = v * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-4, -2))
    return par


def gen_call(rng, objs, k):
    o = objs[k]
    eft = o['spec']['eft']
    c = {'k': 'wet', 'o': k, 'scale': rng.choice(SC[eft])}
    if rng.random() < 0.3:
        ss = work.eft_sectors(eft)
        c['sectors'] = sorted(rng.sample(ss, min(len(ss), rng.choice([1, 2, 3]))))
    return c


def canon(plan, c):
    o = plan['objs'][c['o']]
    eft = o['spec']['eft']
    spec = work.point(core.rng_of('example', eft), eft, 'JMS', SC[eft][0], 8)
    ex = {'t': 'wet', 'spec': spec, 'qed_order': o.get('qed_order', 1), 'qcd_order': o.get('qcd_order', 1)}
    return [ex], {'k': 'wet', 'o': 0, 'scale': SC[eft][-1]}


def generate(rng, i):
    objs = [gen_obj(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
    twin = False
    if rng.random() < 0.15:
        o = copy.deepcopy(rng.choice(objs))
        o['spec'] = work.sibling(rng, o['spec'])
        objs.append(o)
        twin = True
    elif rng.random() < 0.6:
        # same coefficients, only one ingredient differs
        o = copy.deepcopy(rng.choice(objs))
        what = rng.choice(['qed_order', 'qcd_order', 'parameters', 'parameters', 'parameters', 'scale', 'eft'])
        if what == 'parameters':
            if rng.random() < 0.3:
                o['parameters'] = near(rng, o.get('parameters'))
            else:
                o['parameters'] = rng.choice([p for p in PARAMS if p != o.get('parameters', {})])
        elif what == 'scale':
            o['spec']['scale'] = rng.choice(SC[o['spec']['eft']])
        elif what == 'eft':
            lower = {'WET': 'WET-4', 'WET-4': 'WET-3', 'WET-3': 'WET-3'}[o['spec']['eft']]
            keep = dict(work.all_keys(lower, 'JMS'))
            vals = {k: v for k, v in o['spec']['values'].items() if k in keep}
            if vals:
                o['spec'].update(eft=lower, values=vals, scale=SC[lower][0])
        else:
            o[what] = 1 - o.get(what, 1)
        objs.append(o)
        twin = True
    mode = rng.random()
    nt = 1 if mode < 0.6 else rng.choice([2, 2, 3])
    n = rng.choice([2, 3, 4, 6]) if nt == 1 else rng.choice([1, 1, 2])
    pool = [gen_call(rng, objs, k) for k in range(len(objs)) for _ in range(2)]
    if twin:
        pool += [dict(c, o=len(objs) - 1) for c in pool if c['o'] < len(objs) - 1 and objs[c['o']]['spec']['eft'] == objs[-1]['spec']['eft']]
    if rng.random() < 0.2:
        c = rng.choice(pool)
        pool += [dict(c, scale=c['scale'] * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-4, -2)))] * 3
    plan = {'objs': objs, 'threads': [[rng.choice(pool) for _ in range(n)] for _ in range(nt)], 'faults': []}
    if nt > 1:
        calls.add_switches(rng, plan, canon, prefer=FILES)
        if rng.random() < 0.3:
            calls.add_raises(rng, plan, canon, prefer=FILES)
    else:
        if rng.random() < 0.5:
            calls.add_lib(rng, plan, LIB, rng.choice([1, 2]), rng.choice([2, 12]))
        if rng.random() < 0.5:
            calls.add_raises(rng, plan, canon, 1, prefer=FILES)
        # the last call repeats an earlier one
        plan['threads'][0].append(dict(rng.choice(plan['threads'][0])))
    return plan


def more(plan, c):
    return ['wet_global'] if plan['objs'][c['o']].get('parameters') else []


def judge(plan, obs, refs):
    return calls.judge(plan, obs, refs, more=more)


execute = calls.execute
fix_shrunk = calls.fix_shrunk


def reference(name, *a):
    return {'call': calls.ref_call, 'wet_global': calls.ref_wet_global}[name](*a)
