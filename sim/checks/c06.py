"""C06: lazily computed views of WC and Basis objects are always complete."""
import collections
import json
import re

from .. import core, sched, work
from ..core import Violation, outcome
from ..world import plane

ID = 'C06'
RUNS = {'quick': 2500, 'thorough': 120000}
CAP = {'quick': 300, 'thorough': 1200}
RULE = ('A run lets 1-4 threads access views (dict, df, item, str, html, all_wcs, dump, validate, known_translators) of a few new WC '
        'and Basis objects, switching threads at chosen lines and raising KeyboardInterrupt/MemoryError at chosen lines, followed by one look at everything. '
        'Non-trivial: a switch or an injected exception happened.')
REAL = ['wilson/wcxf/classes.py', 'wilson/classes.py', 'pandas']
STUBS = [work.STUB_DEFS]
ASSUMPTIONS = ['Threads are switched at line boundaries of package code.']
STATES = 'distinct orders in which the accesses ended'

VIEWS = ['dict', 'df', 'item', 'missing', 'str', 'html', 'dump', 'yaml', 'validate', 'hash', 'whtml']
BVIEWS = ['all_wcs', 'bstr', 'bvalidate_wc', 'bdump']


def gen_wc(rng):
    eft, basis = rng.choice([('WET', 'flavio'), ('WET', 'JMS'), ('SMEFT', 'Warsaw'), ('WET-3', 'flavio')])
    keys = work.all_keys(eft, basis)
    vals = {}
    for k, real in rng.sample(keys, rng.choice([0, 1, 2, 3, 6, 12])):
        r = rng.random()
        x = round(rng.uniform(-1, 1), 4) * 10.0 ** rng.choice([0, -3, -8])
        if r < 0.4:
            vals[k] = x
        elif r < 0.5:
            vals[k] = rng.choice([0, 1, -3])
        elif r < 0.6:
            vals[k] = rng.choice(['1e-3', '-0.25', '2'])        # as YAML 1.1 delivers them
        else:
            d = {'Re': x, 'Im': round(rng.uniform(-1, 1), 4)}
            if rng.random() < 0.3:
                d.pop(rng.choice(['Re', 'Im']))
            vals[k] = d
    if rng.random() < 0.06:
        vals['no_such_coefficient'] = 1.0
    o = {'t': 'wc', 'eft': eft, 'basis': basis, 'scale': rng.choice([160.0, 91.1876, 1000]), 'values': vals}
    if rng.random() < 0.3:
        # made from plain numbers, of any size
        o['via'] = rng.choice(['dict2values', 'wilson'])
        for k in vals:
            z = complex(*[round(rng.uniform(-1, 1), 6) * 10.0 ** rng.choice([0, -5, -9, -17, -30]) for _ in (0, 1)])
            r = rng.random()
            vals[k] = {'Re': 0.0 if r < 0.1 else z.real, 'Im': z.imag} if r < 0.7 else z.real
        if 'no_such_coefficient' in vals:
            del o['via']
    return o


def gen_basis(rng):
    secs = {}
    n = 0
    for s in rng.sample(['sb', 'cu', 'db', 'ds'], rng.choice([1, 2, 3])):
        secs[s] = {}
        for _ in range(rng.choice([0, 1, 3, 6])):
            secs[s]['c%d' % n] = rng.choice([None, {'real': True}, {'tex': 'C_{%d}' % n}])
            n += 1
    return {'t': 'basis', 'eft': 'WET', 'basis': 'test%d' % rng.randrange(3), 'sectors': secs}


def build(o):
    import copy
    from wilson import wcxf
    if 'via' in o:
        d = {k: num(v) for k, v in o['values'].items()}
        if o['via'] == 'wilson':
            import wilson
            return wilson.Wilson(d, o['scale'], o['eft'], o['basis']).wc
        return wcxf.WC(o['eft'], o['basis'], o['scale'], wcxf.WC.dict2values(d))
    if o['t'] == 'wc':
        return wcxf.WC(o['eft'], o['basis'], o['scale'], copy.deepcopy(o['values']))
    return wcxf.Basis(o['eft'], o['basis'], copy.deepcopy(o['sectors']))


def access(objs, c):
    import wilson
    x = objs[c['o']]
    v = c['v']
    if v == 'dict':
        return dict(x.dict)
    if v == 'df':
        d = x.df
        return [list(map(str, d.index)), list(d.columns), [float(a) for a in d['Re']], [float(a) for a in d['Im']]]
    if v == 'item':
        return {k: x[k] for k in list(x.values)[:3]}
    if v == 'missing':
        return x['certainly_not_there']
    if v == 'str':
        return str(x)
    if v == 'html':
        return x._repr_html_()
    if v == 'whtml':
        return wilson.Wilson._repr_html_(type('W', (), {'wc': x})())
    if v == 'dump':
        return x.dump()
    if v == 'yaml':
        return x.dump(fmt='yaml')
    if v == 'validate':
        return x.validate()
    if v == 'hash':
        return hash(x)
    if v == 'all_wcs':
        return list(x.all_wcs)
    if v == 'bstr':
        return str(x)
    if v == 'bdump':
        return x.dump()
    if v == 'bvalidate_wc':
        from wilson import wcxf
        return wcxf.WC(x.eft, x.basis, 1.0, {k: 1.0 for k in c['keys']}).validate()


def gen_access(rng, objs):
    o = rng.randrange(len(objs))
    if objs[o]['t'] == 'wc':
        w = rng.choice([VIEWS, ['dict', 'df', 'str', 'item']])
        return {'o': o, 'v': rng.choice(w)}
    c = {'o': o, 'v': rng.choice(BVIEWS)}
    if c['v'] == 'bvalidate_wc':
        # ask about the registered (last created) basis of that name
        last = [b for b in objs if b['t'] == 'basis' and b['basis'] == objs[o]['basis']][-1]
        c['o'] = objs.index(last)
        ks = [k for s in last['sectors'].values() for k in s]
        c['keys'] = rng.sample(ks, min(len(ks), 3)) + (['nope'] if rng.random() < 0.3 else [])
    return c


EX_OBJS = [{'t': 'wc', 'eft': 'WET', 'basis': 'flavio', 'scale': 160.0,
            'values': {'C9_bsmumu': {'Re': 1.0, 'Im': 2.0}, 'C9_bsee': 0.5, 'CVLL_bsbs': 1}},
           {'t': 'basis', 'eft': 'WET', 'basis': 'ex', 'sectors': {'sb': {'a': None, 'b': {'real': True}}, 'cu': {'c': {'tex': 'x'}}}}]


def lines(c):
    ex = {'o': 0 if c['v'] in VIEWS else 1, 'v': c['v'], 'keys': ['a', 'c']}

    def make():
        objs = [build(o) for o in EX_OBJS]
        return lambda: access(objs, ex)
    return work.lines_for(['c06', ex], make)


def generate(rng, i):
    objs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        objs.append(gen_wc(rng) if rng.random() < 0.75 else gen_basis(rng))
    nt = rng.choice([1, 2, 2, 3, 4])
    threads = [[gen_access(rng, objs) for _ in range(rng.randint(1, 4))] for _ in range(nt)]
    if nt > 1 and rng.random() < 0.5:
        threads[1][0] = dict(threads[0][0])      # the same first access twice
    plan = {'objs': objs, 'threads': threads, 'faults': [], 'sched': []}
    flat = [(t, i) for t in range(nt) for i in range(len(threads[t]))]
    if nt > 1:
        for _ in range(rng.choice([1, 2, 3, 4, 6])):
            t, i = rng.choice(flat)
            loc = work.pick_line(rng, lines(threads[t][i]), ())
            if loc:
                plan['sched'].append({'at': ['%d.%d' % (t, i), loc[0], loc[1]], 'do': 'switch', 'to': rng.randrange(4)})
        plan['order'] = rng.sample(range(nt), nt)
    if nt == 1 or rng.random() < 0.4:
        for _ in range(rng.choice([1, 1, 2])):
            t, i = rng.choice(flat)
            loc = work.pick_line(rng, lines(threads[t][i]), ())
            if loc:
                plan['faults'].append({'op': i, 'at': ['%d.%d' % (t, i), loc[0], loc[1]], 'do': 'raise',
                                       'exc': rng.choice(['KeyboardInterrupt', 'MemoryError', 'RecursionError'])})
    seen = set()
    plan['sched'] = [f for f in plan['sched'] if not (tuple(f['at']) in seen or seen.add(tuple(f['at'])))]
    plan['faults'] = [f for f in plan['faults'] if not (tuple(f['at']) in seen or seen.add(tuple(f['at'])))]
    return plan


def execute(plan):
    import random
    random.seed(plan.get('seed', 0))
    plane.reset()
    plane.active = True
    objs = [build(o) for o in plan['objs']]
    hashes = [hash(x) if o['t'] == 'wc' else None for o, x in zip(plan['objs'], objs)]
    sim = sched.Sim(plan.get('faults', []) + plan.get('sched', []))
    trace = []
    ops, outs = collections.Counter(), collections.Counter()

    def body(t):
        def f(s, tid):
            for i, c in enumerate(plan['threads'][t]):
                s.boundary(tid, i)
                r = outcome(access, objs, c)
                ops[c['v']] += 1
                outs['%s:%s' % (c['v'], r[0] if r[0] == 'ok' else r[1])] += 1
                if r[0] == 'err' and r[1] in ('Deadlock', 'StepLimit'):
                    return
                if c['v'] == 'hash' and r[0] == 'ok':
                    r = ('ok', r[1] == hashes[c['o']])
                trace.append([t, i, s.hits['%d.%d' % (t, i)], r])
        return f
    sim.run_threads([body(t) for t in range(len(plan['threads']))], plan.get('order'))
    plane.active = False
    final = []
    for k, (o, x) in enumerate(zip(plan['objs'], objs)):
        final.append({v: outcome(access, objs, {'o': k, 'v': v}) for v in
                      (['dict', 'df', 'item', 'missing', 'str', 'dump'] if o['t'] == 'wc' else ['all_wcs', 'bstr', 'bdump'])})
        if o['t'] == 'wc':
            final[-1]['hash'] = ('ok', hash(x) == hashes[k])
            final[-1]['html'] = outcome(access, objs, {'o': k, 'v': 'html'})
    n = sum(v for k, v in sim.fired.items())
    return {'trace': trace, 'final': final, 'failure': sim.failure, 'faults': dict(sim.fired), 'ops': ops, 'outcomes': outs,
            'states': {core.digest([x[:2] for x in trace])}, 'steps': sim.step, 'inter': sim.interleaving(), 'nontrivial': n > 0}


def num(v):
    if isinstance(v, dict):
        return complex(float(v.get('Re', 0)), float(v.get('Im', 0)))
    return float(v)


def expected(plan, c):
    """('ok', value) / ('err', kind) / None if only checked loosely."""
    o = plan['objs'][c['o']]
    v = c['v']
    if o['t'] == 'wc':
        vals = {k: num(x) for k, x in o['values'].items()}
        if v == 'dict':
            return ('ok', vals)
        if v == 'df':
            return ('ok', [list(vals), ['Re', 'Im'], [x.real for x in vals.values()], [x.imag for x in vals.values()]])
        if v == 'item':
            return ('ok', {k: vals[k] for k in list(vals)[:3]})
        if v == 'missing':
            return ('ok', 0)
        if v == 'hash':
            return ('ok', True)
        if v == 'dump':
            if 'via' in o:
                return ('json', {'eft': o['eft'], 'basis': o['basis'], 'scale': float(o['scale']), 'values': vals}, True)
            return ('json', {'eft': o['eft'], 'basis': o['basis'], 'scale': float(o['scale']), 'values': o['values']})
        if v == 'validate':
            known = {k for k, _ in work.all_keys(o['eft'], o['basis'])}
            return ('ok', None) if set(vals) <= known else ('err', None)
        if v == 'str':
            return ('rows', vals)
        if v in ('html', 'whtml'):
            return ('parts', list(vals))
        return None
    wcs = [k for s in o['sectors'].values() for k in s]
    if v == 'all_wcs':
        return ('ok', wcs)
    if v == 'bdump':
        return ('json', {'eft': o['eft'], 'basis': o['basis'], 'sectors': o['sectors']})
    if v == 'bstr':
        return ('parts', ['`%s`' % k for k in wcs])
    if v == 'bvalidate_wc':
        return ('ok', None) if set(c['keys']) <= set(wcs) else ('err', None)


def check(exp, r):
    if exp is None:
        return None if r[0] == 'ok' else 'raises %s: %s' % (r[1], r[2])
    if exp[0] == 'err':
        return None if r[0] == 'err' else 'does not fail'
    if r[0] != 'ok':
        return 'raises %s: %s' % (r[1], r[2])
    if exp[0] == 'ok':
        return None if r[1] == exp[1] else 'gives %s instead of %s' % (str(r[1])[:300], str(exp[1])[:300])
    if exp[0] == 'json':
        try:
            d = json.loads(r[1])
        except ValueError as e:
            return 'is no JSON: %s' % e
        if len(exp) > 2:
            d['values'] = {k: num(v) for k, v in d['values'].items()}
        return None if d == exp[1] else 'gives %s instead of %s' % (str(d)[:300], str(exp[1])[:300])
    if exp[0] == 'rows':
        for k, x in exp[1].items():
            m = re.search('`%s`[^\\n|]*\\|([^|\\n]*)' % re.escape(k), r[1])
            try:
                if m and complex(m.group(1).strip()) == x:
                    continue
            except ValueError:
                pass
            return 'does not show %s = %r' % (k, x)
        return None
    miss = [p for p in exp[1] if p not in r[1]]
    return 'does not show %s' % miss[:3] if miss else None


def judge(plan, obs, refs):
    out = []
    if obs['failure']:
        out.append(Violation(obs['failure'][0], obs['failure'][1]))
    for t, i, hit, r in obs['trace']:
        c = plan['threads'][t][i]
        if r[0] == 'err' and hit:
            continue
        d = check(expected(plan, c), r)
        if d:
            out.append(Violation('incomplete-view', 'access %d.%d (%s of object %d) %s' % (t, i, c['v'], c['o'], d)))
    for k, f in enumerate(obs['final']):
        for v, r in f.items():
            d = check(expected(plan, {'o': k, 'v': v}), r)
            if d:
                out.append(Violation('incomplete-view', 'afterwards %s of object %d %s' % (v, k, d)))
    return out


def fix_shrunk(plan, path, removed):
    from .. import calls
    return calls.fix_shrunk(plan, path, removed)
