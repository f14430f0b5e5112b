"""C19: continuous RG solutions stay valid on their own."""
import copy
import json

from .. import calls, core, work
from ..calls import kind
from ..core import Violation, outcome

ID = 'C19'
RUNS = {'quick': 240, 'thorough': 6000}
CAP = {'quick': 400, 'thorough': 1600}
RULE = ('A run makes 1-3 continuous solutions from WET and SMEFT runners and evaluates them (single scales, arrays, plot data) in any order, with other runs, '
        'translations, matchings and solutions of the same and other runners in between, the runner being dropped, in one to three threads with switches, with '
        'integrators that stop early or fail, failing contractions and interruptions. References: the same evaluation in a fresh process, and '
        'running to the same scale directly. Non-trivial: a solution was evaluated after something else was done, or a switch happened.')
REAL = ['wilson/classes.py:RGsolution', 'wilson/run/', 'wilson/util/', 'wilson/wcxf/classes.py', 'numpy', 'scipy', 'ckmutil', 'rundec']
STUBS = [work.STUB_DEFS]
ASSUMPTIONS = [work.ASSUME_DEFS, work.ASSUME_FORK,
               'An SMEFT solution is compared with the integrated coefficients before the rotation to the default flavour basis, which run() adds.',
               'An integrator that stops early returns success=False and the solution so far, as scipy documents.',
               'Between the end points direct integration and interpolation agree to 0.5 % plus 1e-5 of the largest coefficient.']
STATES = 'distinct windows of four calls (kind, outcome, hit); completion orders for threads'

FILES = ('wilson/run/wet/classes.py', 'wilson/run/smeft/rge.py', 'wilson/run/smeft/classes.py', 'wilson/classes.py', 'wilson/run/wet/rge.py')
LIB = [('solve_ivp', ['incomplete', 0.3]), ('solve_ivp', ['incomplete', 0.95, 7]), ('solve_ivp', ['incomplete', 0.9]), ('solve_ivp', 'MemoryError'), ('einsum', 'MemoryError'), ('rundec', 'MemoryError')]
WSC = {'WET': (160.0, [4.2, 10.0, 80.0]), 'WET-4': (4.2, [2.0, 3.0]), 'WET-3': (2.0, [1.3, 1.5, 2.5])}
SSC = (1000.0, [500.0, 800.0, 2000.0])


PARAMS = [{}, {'m_b': 4.3}, {'alpha_s': 0.1181}, {'m_c': 1.2}, {'m_s': 0.1}, {'m_u': 0.003, 'm_d': 0.005}, {'m_tau': 1.8, 'm_mu': 0.11}, {'alpha_e': 0.0073}]


def _make(env, c):
    s = c['slot']
    r = env[c['o']]
    if 'sectors' in s and s['sectors'] != 'all':
        return r.run_continuous(s['scale'], sectors=tuple(s['sectors']))
    return r.run_continuous(s['scale'])


def _sols(env):
    if not hasattr(env, 'sols'):
        env.sols = {}
    return env.sols


@kind('cont_new')
def _new(env, c):
    sol = _make(env, c)
    _sols(env)[c['slot']['n']] = sol
    return [sol.scale_min, sol.scale_max]


@kind('cont_eval')
def _eval(env, c):
    import numpy as np
    sols = _sols(env)
    if env.__dict__.get('fresh'):
        sols[c['slot']['n']] = _make(env, c)
    sol = sols.get(c['slot']['n'])
    if sol is None:
        return 'no solution'
    x = c['x']
    r = sol.fun(np.array(x) if isinstance(x, list) else x)
    return [dict(d) for d in r] if isinstance(x, list) else r


@kind('cont_plot')
def _plot(env, c):
    sols = _sols(env)
    if env.__dict__.get('fresh'):
        sols[c['slot']['n']] = _make(env, c)
    sol = sols.get(c['slot']['n'])
    if sol is None:
        return 'no solution'
    x, y = sol.plotdata(c['key'], part=c['part'], scale=c['grid'], steps=c['steps'])
    return [x, y]


@kind('cont_drop')
def _drop(env, c):
    """Forget the runner; only the solutions stay."""
    env.objs[c['o']] = calls.build(env.specs[c['o']])


def direct(objs, c):
    """Running to the scale without a continuous solution."""
    def f():
        env = calls.Env(objs)
        r = env[0]
        if objs[0]['t'] == 'wet':
            s = c['slot'].get('sectors', 'all')
            if c['x'] == r.scale_in:
                return {k: v for k, v in r.C_in.items()}
            return dict(r.run(c['x'], sectors=s if s == 'all' else tuple(s)).dict)
        from wilson.run.smeft import rge
        from wilson.util import smeftutil
        C = r.C_in if c['x'] == r.scale_in else rge.smeft_evolve(r.C_in, r.scale_in, c['x'])
        return smeftutil.arrays2wcxf_nonred(C)
    r = outcome(f)
    return ('ok', calls.plain(r[1])) if r[0] == 'ok' else r


def reference(name, *a):
    if name == 'direct':
        return direct(*a)
    objs, c = a

    def f():
        env = calls.Env(objs)
        env.fresh = True
        return calls.run_call(env, c)
    return calls._done(outcome(f))


def gen_obj(rng):
    if rng.random() < 0.25:
        return {'t': 'smeft', 'spec': work.point(rng, 'SMEFT', 'Warsaw', SSC[0], rng.choice([1, 3, 5]))}
    eft = rng.choice(['WET', 'WET', 'WET-4', 'WET-3'])
    o = {'t': 'wet', 'spec': work.point(rng, eft, 'JMS', WSC[eft][0], rng.choice([1, 3, 8])), 'qed_order': rng.choice([0, 1]), 'qcd_order': rng.choice([0, 1, 1])}
    if rng.random() < 0.4:
        o['parameters'] = rng.choice(PARAMS)
    return o


def gen_twin(rng, o):
    """A runner that differs in one respect only."""
    o = copy.deepcopy(o)
    if o['t'] == 'smeft' or rng.random() < 0.35:
        o['spec'] = work.sibling(rng, o['spec'])
    elif rng.random() < 0.3:
        k = rng.choice(['qed_order', 'qcd_order'])
        o[k] = 1 - o[k]
    else:
        o['parameters'] = rng.choice([p for p in PARAMS if p != o.get('parameters', {})])
    return o


def span(o):
    return SSC if o['t'] == 'smeft' else WSC[o['spec']['eft']]


def gen_slot(rng, objs, k, n):
    o = objs[k]
    s = {'n': n, 'scale': rng.choice(span(o)[1])}
    if rng.random() < 0.05:
        s['scale'] = span(o)[0]
    if o['t'] == 'wet' and rng.random() < 0.3:
        ss = work.eft_sectors(o['spec']['eft'])
        s['sectors'] = sorted(rng.sample(ss, min(len(ss), rng.choice([1, 3]))))
    return s


def gen_x(rng, o, s):
    a, b = sorted([o['spec']['scale'], s['scale']])
    r = rng.random()
    g = core.rng_of('near', s['n'], s['scale'], json.dumps(o['spec']['values']))
    if r > (0.2 if g.random() < 0.4 else 0.85) and a != b:
        # close to another scale of this solution
        m = round(a + (b - a) * g.random(), 3)
        return min(max(m * (1 + rng.choice([0, 1, -1]) * 10 ** rng.uniform(-4.5, -2.5)), a), b)
    r = rng.random()
    if r < 0.25:
        return s['scale']
    if r < 0.4:
        return o['spec']['scale']
    return round(a + (b - a) * rng.random(), 3) if a != b else a


def gen_use(rng, objs, slots):
    k, s = rng.choice(slots)
    o = objs[k]
    c = {'k': 'cont_eval', 'o': k, 'slot': s}
    r = rng.random()
    if r < 0.2:
        key = rng.choice(sorted(o['spec']['values']))
        c.update(k='cont_plot', key=key, part=rng.choice(['re', 'im']), grid=rng.choice(['log', 'linear']), steps=rng.choice([2, 3, 5]))
    elif r < 0.45:
        c['x'] = [gen_x(rng, o, s) for _ in range(rng.choice([1, 2, 3]))]
    else:
        c['x'] = gen_x(rng, o, s)
    return c


def gen_other(rng, objs):
    k = rng.randrange(len(objs))
    o = objs[k]
    if rng.random() < 0.15:
        return {'k': 'cont_drop', 'o': k}
    if o['t'] == 'smeft':
        return {'k': 'smeft', 'o': k, 'scale': rng.choice(span(o)[1]), 'acc': 'leadinglog'}
    c = {'k': 'wet', 'o': k, 'scale': rng.choice(span(o)[1])}
    if rng.random() < 0.3:
        ss = work.eft_sectors(o['spec']['eft'])
        c['sectors'] = sorted(rng.sample(ss, 1))
    return c


def canon(plan, c):
    o = plan['objs'][c['o']]
    eft = o['spec']['eft']
    ex = {'t': o['t'], 'spec': work.point(core.rng_of('c19', eft), eft, 'Warsaw' if eft == 'SMEFT' else 'JMS', span(o)[0], 5)}
    d = {'k': c['k'], 'o': 0}
    if 'slot' in c:
        d['slot'] = {'n': 0, 'scale': span(o)[1][0]}
        if c['k'] != 'cont_new':
            d = {'k': 'cont_new', 'o': 0, 'slot': d['slot']} if c['k'] == 'cont_plot' else dict(d, k='cont_line', x=span(o)[1][0])
    elif c['k'] in ('wet', 'smeft'):
        d.update(scale=span(o)[1][0], acc='leadinglog')
    return [ex], d


@kind('cont_line')
def _line(env, c):
    """For recording the lines of an evaluation."""
    return _make(env, c).fun(c['x'])


def gen_shared(rng):
    """One or two solutions, asked by two threads at different scales, line by line in turns."""
    objs = [gen_obj(rng)]
    if rng.random() < 0.5:
        objs[0] = {'t': 'smeft', 'spec': work.point(rng, 'SMEFT', 'Warsaw', SSC[0], rng.choice([1, 3, 5]))}
    slots = [(0, gen_slot(rng, objs, 0, n)) for n in range(rng.choice([1, 1, 2]))]
    for _, s in slots:
        s['scale'] = rng.choice(span(objs[0])[1])
    plan = {'objs': objs, 'faults': [], 'threads': [[], []]}
    plan['threads'][0] = [{'k': 'cont_new', 'o': 0, 'slot': s} for _, s in slots]
    ev = []
    for t in 0, 1:
        k, s = slots[t % len(slots)]
        c = {'k': 'cont_eval', 'o': k, 'slot': s, 'x': gen_x(rng, objs[0], s)}
        if rng.random() < 0.3:
            c['x'] = [c['x'], gen_x(rng, objs[0], s)]
        plan['threads'][t] = plan['threads'][t] + [c]
        ev.append('%d.%d' % (t, len(plan['threads'][t]) - 1))
    ex, d = canon(plan, plan['threads'][1][0])
    lines = work.lines_for(['c19-eval', ex], lambda: _evaluate(ex))
    if rng.random() < 0.85:
        lines = [l for l in lines if l[0].startswith(FILES)] or lines
    plan['sched'] = calls.dedup(calls.lockstep(rng, lines, ev, FILES[:2]))
    plan['order'] = [0, 1]
    return plan


def _evaluate(objs):
    env = calls.Env(objs)
    sol = _make(env, {'o': 0, 'slot': {'n': 0, 'scale': span(objs[0])[1][0]}})
    return lambda: sol.fun(span(objs[0])[1][0])


def generate(rng, i):
    if rng.random() < 0.12:
        return gen_shared(rng)
    objs = [gen_obj(rng) for _ in range(rng.choice([1, 1, 2]))]
    ns = rng.choice([1, 1, 2, 3])
    slots = []
    for n in range(ns):
        k = rng.randrange(len(objs))
        slots.append((k, gen_slot(rng, objs, k, n)))
    twin = {}
    if rng.random() < 0.3:
        # a second runner with the same solutions, used in the same way
        k, s = rng.choice(slots)
        objs.append(gen_twin(rng, objs[k]))
        slots.append((len(objs) - 1, dict(s, n=ns)))
        twin = {s['n']: slots[-1]}
        ns += 1
    nt = 1 if rng.random() < 0.6 else rng.choice([2, 2, 3])
    new = [{'k': 'cont_new', 'o': k, 'slot': s} for k, s in slots]
    plan = {'objs': objs, 'faults': []}
    if nt == 1:
        t = list(new)
        for _ in range(rng.choice([1, 2, 3])):
            t.insert(rng.randrange(1, len(t) + 1), gen_other(rng, objs))
        t += [gen_use(rng, objs, slots) for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < 0.5:
            t.append(gen_other(rng, objs))
            t.append(gen_use(rng, objs, slots))
        t += [dict(c, o=twin[c['slot']['n']][0], slot=twin[c['slot']['n']][1]) for c in t
              if c['k'] in ('cont_eval', 'cont_plot') and c['slot']['n'] in twin]
        plan['threads'] = [t]
        if rng.random() < 0.45:
            j = rng.randrange(len(t))
            lib, act = rng.choice(LIB)
            if rng.random() < 0.6:
                j, (lib, act) = rng.randrange(ns), rng.choice(LIB[:2])
            if t[j]['k'] != 'cont_drop':
                plan['faults'].append({'op': j, 'lib': lib, 'act': act, 'call': rng.choice([1, 1, 2, 3])})
        if rng.random() < 0.5:
            calls.add_raises(rng, plan, canon, 1, prefer=FILES)
    else:
        plan['threads'] = [[] for _ in range(nt)]
        for c in new:
            rng.choice(plan['threads']).append(c)
        for t in plan['threads']:
            t += [gen_use(rng, objs, slots) if rng.random() < 0.75 else gen_other(rng, objs) for _ in range(rng.choice([1, 2]))]
        for t in plan['threads']:
            t[:] = [c for c in t if c['k'] != 'cont_drop'] or [gen_use(rng, objs, slots)]
        calls.add_switches(rng, plan, canon, prefer=FILES)
        if rng.random() < 0.3:
            calls.add_raises(rng, plan, canon, prefer=FILES)
    return plan


execute = calls.execute
fix_shrunk = calls.fix_shrunk


def close(a, b, exact):
    """Dictionaries of coefficients; missing means zero."""
    top = max([abs(v) for v in b.values()] + [1e-30])
    rel, tiny = (1e-7, 1e-11) if exact else (5e-3, 1e-5)
    for k in set(a) | set(b):
        x, y = complex(a.get(k, 0)), complex(b.get(k, 0))
        if not abs(x - y) <= rel * abs(y) + tiny * top:
            return '%s: %r vs %r' % (k, x, y)


def inside(plan, c):
    a, b = sorted([plan['objs'][c['o']]['spec']['scale'], c['slot']['scale']])
    return all(a <= x <= b for x in (c['x'] if isinstance(c['x'], list) else [c['x']]))


def judge(plan, obs, refs):
    # solutions that are not there (failed, or not made yet) cannot be judged
    skip = {(t, i) for t, i, hit, r in obs['trace'] if r[0] == 'ok' and r[1] == 'no solution'}
    o2 = dict(obs, trace=[e for e in obs['trace'] if (e[0], e[1]) not in skip])
    out = calls.judge(plan, o2, refs)
    for t, i, hit, r in o2['trace']:
        c = plan['threads'][t][i]
        if r[0] == 'err' and not hit and c.get('slot', {}).get('scale') != plan['objs'][c['o']]['spec']['scale'] and c['k'] in ('cont_new', 'cont_eval') and (c['k'] == 'cont_new' or inside(plan, c)):
            o = plan['objs'][c['o']]
            if refs('direct', [o], {'o': 0, 'x': c['slot']['scale'], 'slot': {k: v for k, v in c['slot'].items() if k != 'n'}})[0] == 'ok':
                out.append(Violation('needless-error', 'call %d.%d %s raises %s: %s; running there directly works' % (t, i, json.dumps(c), r[1], r[2])))
        if r[0] != 'ok' or c['k'] not in ('cont_new', 'cont_eval'):
            continue
        o = plan['objs'][c['o']]
        a, b = sorted([o['spec']['scale'], c['slot']['scale']])
        if c['k'] == 'cont_new':
            if abs(r[1][0] - a) + abs(r[1][1] - b) > 1e-9 * b:
                out.append(Violation('wrong-range', 'call %d.%d %s: the range of the solution is %s' % (t, i, json.dumps(c), r[1])))
            continue
        xs = c['x'] if isinstance(c['x'], list) else [c['x']]
        rs = r[1] if isinstance(c['x'], list) else [r[1]]
        for x, d in list(zip(xs, rs))[:2]:
            end = x == c['slot']['scale'] or x == o['spec']['scale']
            ref = refs('direct', [o], dict({k: v for k, v in c.items() if k != 'k'}, o=0, x=x, slot={k: v for k, v in c['slot'].items() if k != 'n'}))
            if ref[0] != 'ok':
                continue
            want = ref[1]
            if o['t'] == 'wet':
                # the solution also has nu nu q q entries with b, c quarks below their thresholds, which run() drops
                known = {k for k, _ in work.all_keys(o['spec']['eft'], 'JMS')}
                d = {k: v for k, v in d.items() if k in known}
            if o['t'] == 'wet' and c['slot'].get('sectors', 'all') != 'all' and x == o['spec']['scale']:
                want = {k: v for k, v in want.items() if k in d}
            e = close(d, want, end or o['t'] == 'wet')
            if e:
                out.append(Violation('differs-from-direct-run', 'call %d.%d %s at %r differs from running there directly: %s' % (t, i, json.dumps(c), x, e)))
    return out
