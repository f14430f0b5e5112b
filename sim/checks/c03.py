"""C03: the hash of a Wilson object identifies coefficients plus options."""
import collections

from .. import calls, core, sched, work
from ..core import Violation, outcome
from ..work import World
from ..world import plane
from . import c02

ID = 'C03'
RUNS = {'quick': 2500, 'thorough': 120000}
CAP = {'quick': 300, 'thorough': 1200}
RULE = ('A run is a history of 6-30 operations on one or two Wilson objects: option changes (valid, invalid, back to an earlier value, in other '
        'orders), runs, cache clearing, views, changes of the class defaults, copies of options, with exceptions at a chosen line or in a library, the '
        'hash being taken after each operation (also twice; in 40 % of the runs only now and then). 15 % are threads that set options and take hashes of one object. Non-trivial: at least two different and two equal option states.')
REAL = ['wilson/classes.py', 'wilson/wcxf/classes.py', 'voluptuous', 'threads (real, scheduled)']
STUBS = [work.STUB_DEFS]
ASSUMPTIONS = [work.ASSUME_DEFS, work.ASSUME_FORK, 'Two different states of one run having the same 64-bit hash by chance is neglected.']
STATES = 'distinct option states'


def generate(rng, i):
    n = rng.randint(6, 30)
    ops = []
    # few values, so that states come back
    keys = rng.sample(list(c02.GOOD), rng.choice([1, 2, 3, 4]))
    pool = [(k, v) for k in keys for v in rng.sample(c02.GOOD[k], min(len(c02.GOOD[k]), 3))]
    if rng.random() < 0.5:
        pool += [('parameters', v) for v in ({'Vcb': 0.04, 'Vub': 0.004}, {'Vub': 0.004, 'Vcb': 0.04}, {'Vcb': 0.004, 'Vub': 0.04}, {'Vcb': 0.04}, {})]
    if rng.random() < 0.3:
        # values that differ very little are different values
        e = 1 + 10 ** rng.uniform(-15, -3)
        pool += rng.choice([[('mb_matchingscale', 4.2), ('mb_matchingscale', 4.2 * e)],
                            [('parameters', {'Vcb': 0.04}), ('parameters', {'Vcb': 0.04 * e})],
                            [('parameters', {'Vcb': 0.0}), ('parameters', {}), ('parameters', {'Vcb': 1e-12})]]) * 2
    two = rng.random() < 0.3
    if rng.random() < 0.15:
        return threaded(rng, pool)
    for _ in range(n):
        r = rng.random()
        w = rng.randrange(2) if two else 0
        if r < 0.6:
            k, v = rng.choice(pool)
            ops.append({'op': 'set', 'w': w, 'key': k, 'value': v})
        elif r < 0.66:
            k = rng.choice(list(c02.BAD))
            ops.append({'op': 'set', 'w': w, 'key': k, 'value': rng.choice(c02.BAD[k])})
        elif r < 0.72:
            k, v = rng.choice(pool)
            ops.append({'op': 'default', 'w': w, 'via': 'object', 'key': k, 'value': v})
        elif r < 0.8:
            ops.append({'op': 'clear', 'w': w})
        elif r < 0.9:
            ops.append({'op': 'run', 'w': w, 'to': rng.choice(['JMS', 'flavio']), 'scale': rng.choice([160.0, 160.0, 91.0])})
        elif r < 0.95:
            ops.append({'op': 'view', 'w': w})
        else:
            ops.append({'op': 'bad_run', 'w': w})
    faults = []
    if rng.random() < 0.5:
        j = rng.randrange(len(ops))
        o = ops[j]
        if o['op'] == 'run' and rng.random() < 0.3:
            faults.append({'op': j, 'lib': 'rundec', 'act': 'MemoryError', 'call': rng.randint(1, 3)})
        else:
            ex = {'set': {'op': 'set', 'w': 0, 'key': 'parameters', 'value': {'delta': 1.2}},
                  'default': {'op': 'default', 'w': 0, 'via': 'class', 'key': 'parameters', 'value': {'delta': 1.2}},
                  'clear': {'op': 'clear', 'w': 0}, 'run': {'op': 'run', 'w': 0, 'to': 'JMS', 'scale': 91.0},
                  'bad_run': {'op': 'bad_run', 'w': 0}, 'view': {'op': 'view', 'w': 0}}[o['op']]

            def make():
                ws = objects()
                return lambda: run(ws, ex)
            loc = work.pick_line(rng, work.lines_for(['c03', ex], make), ('wilson/classes.py',))
            if loc:
                faults.append({'op': j, 'at': ['0.%d' % j, loc[0], loc[1]], 'do': 'raise',
                               'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
    plan = {'ops': ops, 'faults': faults}
    if rng.random() < 0.4:
        plan['blind'] = [j for j in range(len(ops) - 1) if rng.random() < 0.75]
    return plan


EX = {'set': {'op': 'set', 'w': 0, 'key': 'parameters', 'value': {'Vcb': 0.04}}, 'clear': {'op': 'clear', 'w': 0},
      'run': {'op': 'run', 'w': 0, 'to': 'JMS', 'scale': 91.0}, 'hash': {'op': 'hash', 'w': 0}}


def example(o):
    def make():
        ws = objects()
        return lambda: run(ws, EX[o['op']])
    return work.lines_for(['c03', EX[o['op']]], make)


def threaded(rng, pool):
    """Threads take hashes while others set options; judged is what the hash is afterwards."""
    def op():
        r = rng.random()
        if r < 0.4:
            k, v = rng.choice(pool)
            return {'op': 'set', 'w': 0, 'key': k, 'value': v}
        if r < 0.8:
            return {'op': 'hash', 'w': 0}
        return {'op': 'clear', 'w': 0} if r < 0.9 else {'op': 'run', 'w': 0, 'to': 'JMS', 'scale': 91.0}
    threads = [[op() for _ in range(rng.randint(1, 3))] for _ in range(rng.choice([2, 2, 3]))]
    k, v = rng.choice(pool)
    threads[0][0] = {'op': 'set', 'w': 0, 'key': k, 'value': v}
    threads[1][0] = {'op': 'hash', 'w': 0}
    plan = {'ops': [], 'faults': [], 'threads': threads, 'sched': [], 'order': rng.sample(range(len(threads)), len(threads))}
    flat = [(t, i) for t, ops in enumerate(threads) for i in range(len(ops))]
    for _ in range(rng.choice([1, 2, 3, 4])):
        t, i = rng.choice(flat)
        loc = work.pick_line(rng, example(threads[t][i]), ('wilson/classes.py',))
        if loc:
            plan['sched'].append({'at': ['%d.%d' % (t, i), loc[0], loc[1]], 'do': 'switch', 'to': rng.randrange(3)})
    plan['sched'] = calls.dedup(plan['sched'])
    return plan


def objects():
    return [work.wilson_of(c02.spec()), work.wilson_of(c02.spec())]


def run(ws, o):
    w = ws[o['w']]
    k = o['op']
    v = c02.copy_of(o.get('value'))
    if k == 'set':
        return w.set_option(o['key'], v)
    if k == 'default':
        return w.set_default_option(o['key'], v)
    if k == 'clear':
        return w.clear_cache()
    if k == 'run':
        return w.match_run(o['scale'], 'WET', o['to'])
    if k == 'bad_run':
        return w.match_run(1000.0, 'SMEFT', 'Warsaw')
    if k == 'hash':
        return hash(w)
    if k == 'view':
        return str(w.wc), w.wc.dict, w._repr_html_(), w.parameters, w.matching_parameters


def execute_threads(plan):
    plane.reset()
    plane.active = True
    ws = objects()
    sim = sched.Sim(plan['faults'] + plan['sched'])
    opsC, outC = collections.Counter(), collections.Counter()
    trace = []

    def look(i):
        trace.append([i, [[c02.options(w), outcome(hash, w), outcome(hash, w)] for w in ws]])
    look('start')

    def body(t):
        def f(s, tid):
            for i, o in enumerate(plan['threads'][t]):
                s.boundary(tid, i)
                r = outcome(run, ws, o)
                opsC[o['op']] += 1
                outC['%s:%s' % (o['op'], 'ok' if r[0] == 'ok' else r[1])] += 1
                if r[0] != 'ok' and r[1] in ('Deadlock', 'StepLimit'):
                    return
        return f
    sim.run_threads([body(t) for t in range(len(plan['threads']))], plan['order'])
    if sim.failure is None:
        look('threads')
        w = ws[0]
        # setting what is set already, and changing something and back
        for n, (k, v) in enumerate([('qed_order', w.get_option('qed_order')), ('qcd_order', 1 - w.get_option('qcd_order')),
                                    ('qcd_order', w.get_option('qcd_order'))]):
            w.set_option(k, v)
            look('after %d' % n)
    plane.active = False
    ids = {}
    shape = [[i, [[ids.setdefault(x[1][1], len(ids)), x[0]] for x in l]] for i, l in trace]
    return {'trace': shape, 'full': trace, 'failure': sim.failure, 'faults': dict(sim.fired), 'ops': opsC, 'outcomes': outC,
            'states': {core.digest(x[0]) for _, l in trace for x in l}, 'steps': sim.step, 'inter': sim.interleaving(),
            'nontrivial': bool(sim.switches)}


def execute(plan):
    if 'threads' in plan:
        return execute_threads(plan)
    with World(plan) as world:
        ws = objects()
        trace = []
        opsC, outC, states = collections.Counter(), collections.Counter(), set()

        def look():
            return [[c02.options(w), outcome(hash, w), outcome(hash, w)] for w in ws]
        trace.append([-1, look()])
        blind = set(plan.get('blind', ()))
        for i, o in enumerate(plan['ops']):
            world.begin(i)
            r = outcome(run, ws, o)
            world.end()
            opsC[o['op']] += 1
            outC['%s:%s' % (o['op'], 'ok' if r[0] == 'ok' else r[1])] += 1
            if i in blind:
                continue
            trace.append([i, look()])
            states.add(core.digest([x[0] for x in trace[-1][1]]))
    # hash values differ from run to run; what is compared is which are equal
    ids = {}
    shape = [[i, [[ids.setdefault(x[1][1], len(ids)), x[0]] for x in l]] for i, l in trace]
    return {'trace': shape, 'full': trace, 'faults': world.faults(), 'ops': opsC, 'outcomes': outC, 'states': states,
            'steps': world.sim.step, 'nontrivial': 2 <= len(states) < len(trace)}


def canon(opts):
    return tuple(sorted((k, tuple(sorted(v.items())) if isinstance(v, dict) else v) for k, v in opts.items()))


def judge(plan, obs, refs):
    if obs.get('failure'):
        return [Violation(obs['failure'][0], obs['failure'][1])]
    by_state, by_hash = {}, {}
    for i, looks in obs['full']:
        for w, (opts, h1, h2) in enumerate(looks):
            what = i if isinstance(i, str) else 'operation %d %s' % (i, plan['ops'][i] if i >= 0 else '(start)')
            if h1[0] != 'ok' or h2[0] != 'ok':
                return [Violation('hash-fails', 'after %s hash() raises %r' % (what, h1))]
            if h1 != h2:
                return [Violation('hash-not-stable', 'after %s two hash() calls differ' % what)]
            st = (w, canon(opts))
            h = h1[1]
            if st in by_state and by_state[st][0] != h:
                return [Violation('same-state-other-hash', 'object %d has the same options after %s as after operation %s, but another hash: %r'
                                  % (w, what, by_state[st][1], opts))]
            by_state.setdefault(st, (h, i))
            if h in by_hash and by_hash[h][0] != st:
                o2 = dict(by_hash[h][0][1])
                diff = {k: (o2.get(k), v) for k, v in dict(st[1]).items() if o2.get(k) != v}
                return [Violation('other-state-same-hash', 'after %s and after operation %s (objects %d, %d) the hash is the same although the options differ: %r'
                                  % (what, by_hash[h][1], w, by_hash[h][0][0], diff))]
            by_hash.setdefault(h, (st, i))
    return []


def fix_shrunk(plan, path, removed):
    if 'threads' in plan:
        return calls.fix_shrunk(plan, path, removed)
    if path != ('ops',):
        return plan
    if 'blind' in plan:
        rem = set(removed)
        plan['blind'] = [j - sum(1 for r in rem if r < j) for j in plan['blind'] if j not in rem]
    return work.move_faults(plan, removed)
