"""C05: threads can share a Wilson object."""
import collections
import itertools
import json

from .. import calls, core, sched, work
from ..core import Violation, outcome
from ..world import plane
from . import c01

ID = 'C05'
RUNS = {'quick': 600, 'thorough': 12000}
CAP = {'quick': 400, 'thorough': 1600}
RULE = ('A run lets 2-3 threads call match_run, set_option, clear_cache and get_option on one or two shared Wilson objects, after a sequential '
        'beginning that fills the cache and followed by sequential calls that look at what is left, with switches at chosen lines (mostly of the '
        'cache and option code) and a few interruptions. The calls are judged like operations on a register: which options can have been in force '
        'during a call follows from the order in which set_option calls began and returned. Non-trivial: a switch happened inside a call.')
REAL = work.REAL_ALL
STUBS = [work.STUB_DEFS, 'thread scheduler: simulated, one thread at a time, switches at source lines']
ASSUMPTIONS = [work.ASSUME_DEFS, work.ASSUME_FORK, 'Threads are preempted at source lines, not inside a line.', 'Results are compared with relative tolerance 1e-7.']
STATES = 'distinct orders in which calls began and ended'

PREFER = ('wilson/classes.py',)


def gen_op(rng, specs, targets, keys):
    k = rng.randrange(len(specs))
    r = rng.random()
    if r < 0.6:
        return dict(rng.choice(targets[k]), op='match_run', w=k)
    if r < 0.85:
        key = rng.choice(keys)
        vals = work.OPTION_VALUES[key] if key != 'smeft_accuracy' else ['leadinglog']
        return {'op': 'set_option', 'w': k, 'key': key, 'value': rng.choice(vals)}
    if r < 0.93:
        return {'op': 'clear_cache', 'w': k}
    return {'op': 'get_option', 'w': k, 'key': rng.choice(keys)}


def canon(plan, o):
    """Lines of an example of the operation."""
    spec = plan['specs'][o['w']]
    ex = dict(o, w=0)
    basis = 'Warsaw' if spec['eft'] == 'SMEFT' else 'JMS'
    if o['op'] == 'match_run':
        ex = {'op': 'match_run', 'w': 0, 'eft': o['eft'], 'basis': basis if o['eft'] == spec['eft'] else 'flavio',
              'scale': c01.OUT_SCALES[o['eft']][-1], 'sectors': 'all'}
    if o['op'] == 'set_option':
        ex['value'] = {'Vcb': 0.04} if o['key'] == 'parameters' else work.OPTION_VALUES[o['key']][0]
    ex_spec = work.point(core.rng_of('example'), spec['eft'], basis, {'SMEFT': 1000.0, 'WET': 160.0, 'WET-4': 4.2, 'WET-3': 2.0}[spec['eft']], 5)

    def make():
        ws = [c01._wil(ex_spec)]
        return lambda: run_op(ws, ex)
    return work.lines_for([ex_spec, ex], make)


def generate(rng, i):
    fam = 'SMEFT' if rng.random() < 0.12 else rng.choice(['WET', 'WET', 'WET', 'WET-4', 'WET-3'])
    specs = [c01.gen_point(rng, fam)]
    if rng.random() < 0.2:
        specs.append(c01.gen_point(rng, fam) if rng.random() < 0.5 else work.sibling(rng, specs[0]))
    targets = []
    for s in specs:
        ts = []
        while len(ts) < rng.choice([1, 2, 2, 3]):
            t = c01.gen_target(rng, s)
            if t['eft'] in c01.ORDER[c01.ORDER.index(s['eft']):] and (s['eft'] != 'SMEFT' or t['eft'] in ('SMEFT', 'WET')):
                ts.append(t)
        targets.append(ts)
    keys = rng.choice([['parameters'], ['parameters', 'smeft_matching_order'] if fam == 'SMEFT' else ['parameters'], ['parameters', 'qcd_order'], ['qcd_order', 'qed_order'], ['parameters', 'qed_order', 'qcd_order']])
    nt = rng.choice([2, 2, 3])
    pre = []
    lock = 0.25
    if fam == 'SMEFT' and rng.random() < 0.5:
        # everybody begins with the expensive part
        nt, lock = 2, 0.8
    if fam == 'SMEFT':
        pre = [{'op': 'set_option', 'w': k, 'key': 'smeft_accuracy', 'value': 'leadinglog'} for k in range(len(specs))]
    pre += [gen_op(rng, specs, targets, keys) for _ in range(rng.choice([0, 0, 1, 2]))]
    threads = [[gen_op(rng, specs, targets, keys) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(nt)]
    if not any(o['op'] == 'match_run' for t in threads for o in t):
        threads[0][0] = dict(rng.choice(targets[0]), op='match_run', w=0)
    if rng.random() < 0.7 and not any(o['op'] == 'set_option' for t in threads for o in t):
        threads[-1].insert(0, {'op': 'set_option', 'w': 0, 'key': keys[0], 'value': rng.choice(work.OPTION_VALUES[keys[0]])})
    if rng.random() < 0.15:
        # there and back again while somebody computes
        key = keys[0]
        v = rng.sample(work.OPTION_VALUES[key], 2)
        threads[-1] = [{'op': 'set_option', 'w': 0, 'key': key, 'value': x} for x in v + v[:rng.choice([0, 1])]]
        threads[0] = [dict(rng.choice(targets[0]), op='match_run', w=0) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.5:
            pre.append(threads[-1][-1])
    post = [dict(t, op='match_run', w=k) for k, ts in enumerate(targets) for t in ts]
    if rng.random() < 0.2:
        post.append(dict(rng.choice(post), op='match_run'))
    if lock > 0.5:
        pre = pre[:len(specs)] + [{'op': 'set_option', 'w': 0, 'key': k, 'value': v}
                                  for k, v in rng.sample([('smeft_matching_order', 1), ('parameters', {'Vcb': 0.04})], rng.choice([0, 1, 1, 2]))]
        ts = [t for t in targets[0] if t['eft'] == 'WET'] or [{'scale': 160.0, 'eft': 'WET', 'basis': 'JMS', 'sectors': 'all'}]
        threads = [[dict(rng.choice(ts), op='match_run', w=0)] for _ in range(nt)]
        post = [dict(t, op='match_run', w=0) for t in ts]
    plan = {'specs': specs, 'pre': pre, 'threads': threads, 'post': post, 'faults': [], 'sched': []}
    flat = [(t, i) for t in range(nt) for i in range(len(threads[t]))]
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        t, i = rng.choice(flat)
        if rng.random() < 0.12:
            plan['sched'].append({'at': ['%d.%d' % (t, i), 'boundary', 1], 'do': 'switch', 'to': rng.randrange(4)})
            continue
        loc = work.pick_line(rng, canon(plan, threads[t][i]), PREFER)
        if loc:
            plan['sched'].append({'at': ['%d.%d' % (t, i), loc[0], loc[1]], 'do': 'switch', 'to': rng.randrange(4)})
    if rng.random() < lock:
        # the same stretch of match_run, line by line in turns
        picks = [(t, rng.choice([i for i, o in enumerate(ops) if o['op'] == 'match_run']))
                 for t, ops in enumerate(threads) if any(o['op'] == 'match_run' for o in ops)]
        t, i = rng.choice(picks)
        plan['sched'] += calls.lockstep(rng, canon(plan, threads[t][i]), ['%d.%d' % x for x in picks], PREFER)
    plan['sched'] = calls.dedup(plan['sched'])
    if rng.random() < 0.2:
        t, i = rng.choice(flat)
        loc = work.pick_line(rng, canon(plan, threads[t][i]), PREFER)
        if loc:
            f = {'op': i, 'at': ['%d.%d' % (t, i), loc[0], loc[1]], 'do': 'raise', 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])}
            if tuple(f['at']) not in {tuple(s['at']) for s in plan['sched']}:
                plan['faults'].append(f)
    plan['order'] = rng.sample(range(nt), nt)
    return plan


def run_op(ws, o):
    if o['op'] == 'get_option':
        return ws[o['w']].get_option(o['key'])
    return c01.run_op(ws, o)


def execute(plan):
    plane.reset()
    plane.active = True
    ws = [work.wilson_of(s) for s in plan['specs']]
    initial = [work.options_of(w) for w in ws]
    sim = sched.Sim(plan['faults'] + plan['sched'])
    hist, live = [], []
    clock = itertools.count()
    order = []
    ops, outs = collections.Counter(), collections.Counter()

    def do(t, i, o, s=None):
        b = next(clock)
        order.append(['b', t, i])
        r = outcome(run_op, ws, o)
        e = next(clock)
        order.append(['e', t, i])
        ops[o['op']] += 1
        outs['%s:%s' % (o['op'], r[0] if r[0] == 'ok' else r[1])] += 1
        if r[0] == 'ok':
            v = r[1]
            if o['op'] == 'match_run':
                live.append([t, i, v, work.snap(v)])
                r = ('ok', live[-1][3])
            else:
                r = ('ok', json.loads(json.dumps(v)) if v is not None else None)
        elif r[1] in ('Deadlock', 'StepLimit'):
            return False
        hist.append({'t': t, 'i': i, 'o': o, 'b': b, 'e': e, 'r': r, 'hit': s.hits['%d.%d' % (t, i)] if s else 0})
        return True

    for i, o in enumerate(plan['pre']):
        do('pre', i, o)

    def body(t):
        def f(s, tid):
            for i, o in enumerate(plan['threads'][t]):
                s.boundary(tid, i)
                if not do(t, i, o, s):
                    return
        return f
    sim.run_threads([body(t) for t in range(len(plan['threads']))], plan.get('order'))
    if sim.failure is None:
        for i, o in enumerate(plan['post']):
            do('post', i, o)
    plane.active = False
    changed = []
    for t, i, v, s in live:
        d = work.close_snap(work.snap(v), s, rtol=0, atol=0)
        if d:
            changed.append(['%s.%s' % (t, i), d])
    inside = sum(1 for w, t in sim.switches if '@boundary' not in w)
    return {'trace': [[h['t'], h['i'], h['b'], h['e'], h['hit'], h['r']] for h in hist], 'hist': hist, 'changed': changed, 'failure': sim.failure,
            'initial': initial, 'faults': dict(sim.fired), 'ops': ops, 'outcomes': outs, 'states': {core.digest(order)}, 'steps': sim.step,
            'inter': sim.interleaving(), 'nontrivial': inside > 0}


def candidates(hist, w, key, init, b, e):
    """Values of option `key` of object w that can have been in force between b and e."""
    sets = [h for h in hist if h['o']['op'] == 'set_option' and h['o']['w'] == w and h['o']['key'] == key]
    vals, n = [], 0
    for h in sets + [None]:
        if h is None:
            hb, he, v = -2, -1, init
        else:
            hb, he, v = h['b'], h['e'], h['o']['value']
            if h['r'][0] == 'err' and not h['hit']:
                continue                        # refused: sets nothing
        if hb > e:
            continue
        unsure = h is not None and h['r'][0] == 'err'
        # superseded by one that began after this one ended and ended (surely) before b
        if he < b and any(g is not h and g['b'] > he and g['e'] < b and g['r'][0] == 'ok' for g in sets):
            continue
        vals.append(v)
        n += 1
        if unsure:
            n += 0
    out = []
    for v in vals:
        if v not in out:
            out.append(v)
    return out


def judge(plan, obs, refs):
    out = []
    if obs['failure']:
        out.append(Violation(obs['failure'][0], obs['failure'][1]))
    hist = obs['hist']
    for h in hist:
        o, r = h['o'], h['r']
        w = o['w']
        what = 'call %s.%s %s' % (h['t'], h['i'], json.dumps(o))
        if r[0] == 'err' and h['hit']:
            continue
        if o['op'] in ('clear_cache', 'set_option'):
            if r[0] == 'err':
                out.append(Violation('error', '%s raises %s: %s' % (what, r[1], r[2])))
            continue
        init = obs['initial'][w]
        if o['op'] == 'get_option':
            c = candidates(hist, w, o['key'], init.get(o['key']), h['b'], h['e'])
            if r[0] == 'err' or not any(same_option(o['key'], r[1], v) for v in c):
                out.append(Violation('wrong-option', '%s gives %s; the options that can be in force are %s' % (what, str(r[1])[:200], str(c)[:300])))
            continue
        cand = {k: candidates(hist, w, k, init.get(k), h['b'], h['e']) for k in work.OPTION_VALUES}
        if any(len(c) != 1 for c in cand.values()):
            # options changed during the call, or it is open which are in force: any one combination must do
            if any(g['o']['op'] == 'set_option' and g['o']['w'] == w and g['b'] < h['e'] and g['e'] > h['b'] for g in hist):
                continue
            combos = list(itertools.product(*[[(k, v) for v in c] for k, c in cand.items()]))
            if len(combos) > 6:
                continue
        else:
            combos = [tuple((k, c[0]) for k, c in cand.items())]
        ds = []
        for combo in combos:
            opt = dict(init)
            for k, v in combo:
                opt[k] = full_option(k, v, init)
            ref = refs('pipeline', plan['specs'][w], opt, o['scale'], o['eft'], o['basis'], o['sectors'])
            if r[0] == 'ok':
                d = work.close_snap(r[1], ref[1]) if ref[0] == 'ok' else 'a fresh object raises %s: %s' % (ref[1], ref[2])
            else:
                d = None if ref[0] == 'err' else '%s: %s is raised and a fresh object works' % (r[1], r[2])
            ds.append(d)
            if d is None:
                break
        if all(ds):
            out.append(Violation('stale-or-wrong-result' if r[0] == 'ok' else 'error', '%s with options %s in force: %s'
                                 % (what, json.dumps({k: v for k, v in combos[0]}), ds[0])))
    for what, d in obs['changed']:
        out.append(Violation('returned-object-changed', 'the result of call %s changed later: %s' % (what, d)))
    return out


def full_option(key, v, init):
    return v


def same_option(key, got, v):
    if isinstance(v, dict) and isinstance(got, dict):
        return all(got.get(k) == x for k, x in v.items())
    return got == v


def reference(name, *a):
    return work.ref_pipeline(*a)


def fix_shrunk(plan, path, removed):
    return calls.fix_shrunk(plan, path, removed)
