"""C02: options are isolated per object and change all-or-nothing."""
import collections

from .. import core, work
from ..core import Violation, outcome
from ..work import World

ID = 'C02'
RUNS = {'quick': 2500, 'thorough': 120000}
CAP = {'quick': 300, 'thorough': 1200}
RULE = ('A run is a history of 4-24 operations over up to four Wilson objects: construction, set_option and set_default_option with valid, '
        'coercible and invalid values, changes of values passed earlier and of what the properties returned, clear_cache, cheap match_run calls, with '
        'KeyboardInterrupt/MemoryError/OSError at a chosen line of a call. After each operation (in a third of the runs: only after some) every option and the parameters of every object and the options of a new '
        'object are compared with the model. Non-trivial: at least two accepted changes.')
REAL = ['wilson/classes.py', 'voluptuous']
STUBS = [work.STUB_DEFS]
ASSUMPTIONS = [work.ASSUME_DEFS, work.ASSUME_FORK,
               'get_option results are only read: the package hands out its own dictionary.']
STATES = 'distinct (options of all objects, defaults) after each operation'

GOOD = {
    'smeft_accuracy': ['integrate', 'leadinglog'],
    'qed_order': [0, 1, True, 1.0],
    'qcd_order': [0, 1, False],
    'smeft_matching_order': [0, 1],
    'smeft_matchingscale': [91.1876, 80, '120', 1e3, 160.0],
    'mb_matchingscale': [4.2, 5, '4.5', 4.8],
    'mc_matchingscale': [1.3, 2, '1.5'],
    'parameters': [{}, {'Vcb': 0.04}, {'Vus': 0.23, 'gamma': 1.1}, {'delta': 1.2}, {'delta': 1.25, 'gamma': 1.0},
                   {'m_b': '4.3'}, {'GF': 1.2e-5, 'm_c': 1, 'Vub': '0.0037'}, {'my_own_key': 3}, {'delta': '1.3', 'Vus': 0.22}],
}
BAD = {
    'smeft_accuracy': ['exact', None, 1, ['integrate'], ''],
    'qed_order': [2, -1, '1', None, 0.5],
    'qcd_order': ['x', 3, [1]],
    'smeft_matching_order': [2, None, '0'],
    'smeft_matchingscale': ['heavy', None, [91.0], {}],
    'mb_matchingscale': ['4,2', None],
    'mc_matchingscale': ['', None, {}],
    'parameters': [{'Vcb': 'big'}, {'gamma': None}, None, 'Vcb', 5, [], {'delta': 'x'}, {'Vcb': 0.04, 'Vub': [1]},
                   {'delta': None, 'Vus': 0.2}],
    'no_such_option': [1, None, {}],
    'Parameters': [{}],
    '': [0],
}


def model_value(key, value):
    """(accepted, stored value) of the documented rules."""
    if key not in GOOD:
        return False, None
    if key in ('smeft_accuracy',):
        ok = isinstance(value, str) and value in ('integrate', 'leadinglog')
        return ok, value
    if key in ('qed_order', 'qcd_order', 'smeft_matching_order'):
        ok = isinstance(value, (int, float)) and value in (0, 1)
        return ok, value
    if key == 'parameters':
        if not isinstance(value, dict):
            return False, None
        v = dict(value)
        if 'delta' in v:
            v['gamma'] = v.pop('delta')
        try:
            return True, {k: float(x) for k, x in v.items()}
        except (TypeError, ValueError):
            return False, None
    try:
        return True, float(value)
    except (TypeError, ValueError):
        return False, None


EX = ('WET', 'flavio', 160.0)
EX_VALUES = {'C9_bsmumu': 0.5, 'CVLL_bsbs': [0.1, 0.2]}


def spec():
    return {'eft': EX[0], 'basis': EX[1], 'scale': EX[2], 'values': EX_VALUES}


def gen_op(rng, n_obj):
    r = rng.random()
    if r < 0.45:
        good = rng.random() < 0.72
        key = rng.choice(list(GOOD) if good else list(BAD))
        if rng.random() < 0.3:
            key = 'parameters'
        return {'op': 'set', 'w': rng.randrange(n_obj), 'key': key, 'value': rng.choice((GOOD if good else BAD)[key])}
    if r < 0.65:
        good = rng.random() < 0.72
        key = rng.choice(list(GOOD) if good else list(BAD))
        if rng.random() < 0.3:
            key = 'parameters'
        return {'op': 'default', 'key': key, 'value': rng.choice((GOOD if good else BAD)[key]),
                'via': rng.choice(['class', 'object']), 'w': rng.randrange(n_obj)}
    if r < 0.77:
        return {'op': 'new'}
    if r < 0.85:
        return {'op': 'mutate', 'n': rng.randrange(6)}       # the caller changes a value it passed earlier
    if r < 0.9:
        return {'op': 'clear', 'w': rng.randrange(n_obj)}
    if r < 0.94:
        return {'op': 'views', 'w': rng.randrange(n_obj)}    # the caller changes what the parameter properties returned
    return {'op': 'run', 'w': rng.randrange(n_obj)}


def generate(rng, i):
    n = rng.randint(4, 24)
    ops = [{'op': 'new'}]
    n_obj = 1
    for _ in range(n):
        o = gen_op(rng, n_obj)
        if o['op'] == 'new':
            if n_obj >= 4:
                continue
            n_obj += 1
        ops.append(o)
    faults = []
    if rng.random() < 0.6:
        for _ in range(rng.choice([1, 1, 2, 3])):
            j = rng.randrange(1, len(ops))
            o = ops[j]
            if o['op'] not in ('set', 'default', 'new', 'clear'):
                continue
            ex = {'set': {'op': 'set', 'w': 0, 'key': 'parameters', 'value': {'delta': 1.2}},
                  'default': {'op': 'default', 'w': 0, 'via': 'class', 'key': 'parameters', 'value': {'delta': 1.2}},
                  'new': {'op': 'new'}, 'clear': {'op': 'clear', 'w': 0}}[o['op']]

            def make():
                env = Env()
                env.run({'op': 'new'})
                return lambda: env.run(ex)
            loc = work.pick_line(rng, work.lines_for(['c02', ex], make), ('wilson/classes.py',))
            if loc:
                faults.append({'op': j, 'at': ['0.%d' % j, loc[0], loc[1]], 'do': 'raise',
                               'exc': rng.choice(['KeyboardInterrupt', 'MemoryError', 'OSError'])})
    plan = {'ops': ops, 'faults': faults}
    if rng.random() < 0.35:
        # looked at only now and then, so that looking cannot hide anything
        plan['blind'] = [j for j in range(len(ops) - 1) if ops[j]['op'] != 'new' and rng.random() < 0.75]
    return plan


def copy_of(v):
    return dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v


class Env:
    def __init__(self):
        self.ws = []
        self.given = []          # values passed by the caller, with what they were

    def run(self, o):
        import wilson
        k = o['op']
        if k == 'new':
            self.ws.append(work.wilson_of(spec()))
            return
        if k == 'mutate':
            if self.given:
                g = self.given[o['n'] % len(self.given)]
                if isinstance(g[0], dict):
                    g[0]['Vtd_changed'] = 77.0
                    g[0]['Vcb'] = 99.0
                    g[1] = dict(g[0])
            return
        w = self.ws[o.get('w', 0) % len(self.ws)] if 'w' in o else None
        if k in ('set', 'default'):
            v = copy_of(o['value'])
            self.given.append([v, copy_of(v)])
            if k == 'set':
                return w.set_option(o['key'], v)
            return (wilson.Wilson if o['via'] == 'class' else w).set_default_option(o['key'], v)
        if k == 'clear':
            return w.clear_cache()
        if k == 'views':
            for p in (w.parameters, w.matching_parameters):
                for n in list(p)[::2]:
                    p[n] = 88.0
                p['Vtd_changed'] = 88.0
            return
        if k == 'run':
            w.match_run(160.0, 'WET', 'JMS')


def options(w):
    out = {}
    for k in GOOD:
        v = outcome(w.get_option, k)
        out[k] = copy_of(v[1]) if v[0] == 'ok' else list(v)
    return out


def used(w):
    """The parameters as the calculations see them."""
    return [dict(v[1]) if v[0] == 'ok' else list(v) for v in (outcome(lambda: w.parameters), outcome(lambda: w.matching_parameters))]


def expected_used(base, opts):
    p = dict(base, **opts['parameters'])
    return [p, dict(p, loop_order=opts['smeft_matching_order'])]


def execute(plan):
    with World(plan) as world:
        env = Env()
        trace = []
        opsC, outC, states, wrong = collections.Counter(), collections.Counter(), set(), []
        import wilson.parameters
        first = options(work.wilson_of(spec()))
        base = dict(wilson.parameters.p)
        blind = set(plan.get('blind', ()))
        for i, o in enumerate(plan['ops']):
            world.begin(i)
            r = outcome(env.run, o)
            hit = world.fired()
            world.end()
            opsC[o['op']] += 1
            outC['%s:%s' % (o['op'], 'ok' if r[0] == 'ok' else r[1])] += 1
            if i in blind and not hit:
                trace.append([i, hit, r[0] if r[0] == 'ok' else r[1], None, None, []])
                continue
            par = [used(w) for w in env.ws]
            now = [options(w) for w in env.ws]
            fresh = options(work.wilson_of(spec()))
            touched = [[repr(a), repr(b)] for a, b in env.given if a != b]
            trace.append([i, hit, r[0] if r[0] == 'ok' else r[1], now, fresh, touched])
            for w, p, n in zip(range(9), par, now):
                e = outcome(expected_used, base, n)
                if e[0] == 'ok' and p != e[1]:
                    bad = [[k, repr(a.get(k)), repr(b.get(k))] for a, b in zip(p, e[1]) if isinstance(a, dict)
                           for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
                    wrong.append([i, w, bad[:3] or repr(p)[:200]])
            states.add(core.digest([now, fresh]))
    return {'trace': trace, 'wrong': wrong, 'first': first, 'faults': world.faults(), 'ops': opsC, 'outcomes': outC, 'states': states,
            'steps': world.sim.step, 'nontrivial': sum(1 for o, t in zip(plan['ops'], trace)
                                                       if o['op'] in ('set', 'default') and t[2] == 'ok') >= 2}


DEFAULTS = work.DEFAULTS


def same(a, b):
    return a == b and type(a) in (int, float, bool, str, dict) and (
        not isinstance(a, dict) or all(type(v) is float for v in a.values()))


def judge(plan, obs, refs):
    out = []

    def bad(kind, msg):
        out.append(Violation(kind, msg))
    if obs['first'] != DEFAULTS:
        bad('defaults', 'initial options are %r' % obs['first'])
        return out
    defaults = {k: copy_of(v) for k, v in DEFAULTS.items()}
    objs = []
    for i, hit, res, now, fresh, touched in obs['trace']:
        o = plan['ops'][i]
        what = 'operation %d %r%s' % (i, o, ' (interrupted)' if hit else '')
        k = o['op']
        cand = None          # (place, key, value) allowed instead of the old one
        if k == 'new':
            if now is None or len(now) > len(objs):
                objs.append({a: copy_of(b) for a, b in defaults.items()})
            elif not hit:
                bad('construction-failed', '%s failed: %s' % (what, res))
                return out
        elif k in ('set', 'default'):
            acc, val = model_value(o['key'], o['value'])
            place = objs[o['w'] % len(objs)] if k == 'set' else defaults
            seen = {} if now is None else (now[o['w'] % len(objs)] if k == 'set' else fresh)
            if acc and res == 'ok':
                place[o['key']] = val
            elif acc and not hit:
                bad('valid-change-rejected', '%s failed: %s' % (what, res))
            elif acc:
                if seen.get(o['key']) == val:
                    place[o['key']] = val
            elif res == 'ok':
                bad('invalid-change-accepted', '%s did not fail' % what)
                return out
        elif k in ('clear', 'run') and res != 'ok' and not hit:
            bad('call-failed', '%s failed: %s' % (what, res))
        if now is None:
            continue
        for j, (m, a) in enumerate(zip(objs, now)):
            for key in m:
                if not same(a[key], m[key]):
                    bad('option-wrong', 'after %s option %s of object %d is %r, it should be %r' % (what, key, j, a[key], m[key]))
                    return out
        for key in defaults:
            if not same(fresh[key], defaults[key]):
                bad('default-wrong', 'after %s option %s of a new object is %r, it should be %r' % (what, key, fresh[key], defaults[key]))
                return out
        if touched:
            bad('argument-modified', '%s changed a value passed by the caller: %s' % (what, touched[0]))
            return out
    for i, w, d in obs['wrong']:
        bad('parameters-wrong', 'after operation %d %r the parameters of object %d are not the defaults updated by its option '
            '(name, is, should be): %r' % (i, plan['ops'][i], w, d))
        return out
    return out


def fix_shrunk(plan, path, removed):
    if path != ('ops',):
        return plan
    if 0 in removed:
        return None
    plan = work.move_faults(plan, removed)
    if 'blind' in plan:
        rem = set(removed)
        plan['blind'] = [j - sum(1 for r in rem if r < j) for j in plan['blind'] if j not in rem]
    return plan
