"""C20: objects keep working when copied, pickled or inherited by a fork."""
import collections
import copy
import io
import pickle

from .. import calls, core, work
from ..calls import kind
from ..core import Violation, outcome
from ..hserver import Pool
from . import c01, c08, c17, c21

ID = 'C20'
RUNS = {'quick': 420, 'thorough': 20000}
CAP = {'quick': 400, 'thorough': 1600}
RULE = ('A run is a history on one Wilson, WC, WETrunner or SMEFT object and on what is made of it by copy, deepcopy, pickle (all protocols, both '
        'implementations), by pickling into an interpreter with another hash seed and history, and by fork, also in the middle of a call; calls and option '
        'changes go on at both ends; transfers and calls fail at chosen places. Non-trivial: a call on the object and one on a descendant returned.')
REAL = work.REAL_ALL + ['copy', 'pickle', 'os.fork']
STUBS = [work.STUB_DEFS]
ASSUMPTIONS = [work.ASSUME_DEFS, work.ASSUME_FORK, 'Results are compared with relative tolerance 1e-7.',
               'Hash values are compared within one process only.',
               'Objects related by copy.copy may share options; each must agree with the options it shows.']
STATES = 'distinct (kind of object, transfer path, call, options) tuples'
TIMEOUT = 260
SEED = 1

pool = Pool('C20')


def hashes(plan):
    out = set()

    def walk(ops):
        for o in ops:
            if o['op'] == 'remote' and o['how'] == 'pickle':
                out.add(o['hash'])
            if 'ops' in o:
                walk(o['ops'])
    walk(plan['ops'])
    return sorted(out)


def before(plan):
    pool.ensure(hashes(plan))


@kind('set')
def _set(env, c):
    v = c['value']
    env[c['o']].set_option(c['key'], dict(v) if isinstance(v, dict) else v)


@kind('default')
def _default(env, c):
    v = c['value']
    type(env[c['o']]).set_default_option(c['key'], dict(v) if isinstance(v, dict) else v)


@kind('clear')
def _clear(env, c):
    env[c['o']].clear_cache()


@kind('opts')
def _opts(env, c):
    return {k: repr(v) for k, v in work.options_of(env[c['o']]).items()}


@kind('lazy')
def _lazy(env, c):
    wc = env[c['o']]
    return {'dict': dict(wc.dict), 'df': dict(zip(wc.df.index, wc.df.iloc[:, 0])), 'text': sorted(str(wc).split('\n'))}


# --- plans -------------------------------------------------------------------

def gen_obj(rng):
    r = rng.random()
    if r < 0.5:
        s = c01.gen_point(rng)
        o = {'t': 'wilson', 'spec': s, 'options': {}}
        if s['eft'] == 'SMEFT':
            o['options']['smeft_accuracy'] = 'leadinglog'
        return o
    if r < 0.75:
        return c21.gen_obj(rng)
    if r < 0.97:
        return c08.gen_obj(rng)
    return {'t': 'smeft', 'spec': work.point(rng, 'SMEFT', 'Warsaw', rng.choice([1000.0, 160.0]), n=4)}


def gen_call(rng, o):
    t = o['t']
    if t == 'wilson':
        r = rng.random()
        if r < 0.58:
            if rng.random() < 0.7 and o['targets']:
                return dict(rng.choice(o['targets']), k='pipe', o=0)
            return dict(c01.gen_target(rng, o['spec']), k='pipe', o=0)
        if r < 0.84:
            key = rng.choice(list(work.OPTION_VALUES))
            if key == 'smeft_accuracy' and o['spec']['eft'] == 'SMEFT' or key == 'smeft_matching_order' and rng.random() < 0.7:
                key = 'qcd_order'
            return {'k': 'set', 'o': 0, 'key': key, 'value': rng.choice(work.OPTION_VALUES[key])}
        if r < 0.92:
            key = rng.choice(['qed_order', 'qcd_order', 'parameters', 'mb_matchingscale'])
            return {'k': 'default', 'o': 0, 'key': key, 'value': rng.choice(work.OPTION_VALUES[key])}
        return {'k': rng.choice(['clear', 'opts']), 'o': 0}
    if t == 'wc':
        if rng.random() < 0.3:
            return {'k': rng.choice(['lazy', 'dump']), 'o': 0, 'fmt': rng.choice(['json', 'yaml'])}
        return c21.gen_call(rng, [o], 0)
    if t == 'wet':
        return c08.gen_call(rng, [o], 0)
    return {'k': 'smeft', 'o': 0, 'scale': rng.choice([160.0, 500.0]), 'acc': 'leadinglog'}


def gen_ops(rng, o, n, depth, seeds):
    ops, holders = [], 1
    for j in range(n):
        h = rng.randrange(holders) if rng.random() < 0.6 else holders - 1
        r = rng.random()
        if r < 0.55 or (j == n - 1 and r < 0.8):
            ops.append({'op': 'call', 'h': h, 'c': gen_call(rng, o)})
        elif r < 0.8:
            x = {'op': 'copy', 'h': h, 'how': rng.choice(['copy', 'deepcopy', 'deepcopy', 'pickle', 'pickle'])}
            if x['how'] == 'pickle':
                x['proto'] = rng.randrange(6)
                if rng.random() < 0.3:
                    x['pure'] = 1
            if rng.random() < 0.2:
                x['fail'] = rng.randint(1, 60)
                if x['how'] == 'pickle':
                    x['pure'] = 1
            if x['how'] != 'copy' or 'fail' not in x:
                ops.append(x)
                holders += 'fail' not in x
        elif depth < 2:
            x = {'op': 'remote', 'h': h, 'how': rng.choice(['pickle', 'fork'])}
            if x['how'] == 'pickle':
                x['proto'] = rng.randrange(6)
                x['hash'] = rng.choice(seeds)
                if rng.random() < 0.5:
                    x['before'] = [c17.gen_step(rng) for _ in range(rng.choice([1, 2]))] if rng.random() < 0.5 else \
                        [{'objs': [o], 'c': gen_call(rng, o)} for _ in range(rng.choice([1, 2, 3]))]
            x['ops'] = gen_ops(rng, o, rng.choice([1, 2, 3]), depth + 1 if x['how'] == 'fork' else 2, seeds)
            if rng.random() < 0.5:
                x['back'] = rng.randrange(6)
                holders += 1
            ops.append(x)
    return ops


def generate(rng, i):
    g = core.rng_of('hashseeds20', SEED, i % 8, i // 800)
    seeds = [g.randrange(1, 4294967295) for _ in range(2)] + [0]
    o = gen_obj(rng)
    o['targets'] = [c01.gen_target(rng, o['spec']) for _ in range(rng.choice([1, 1, 2]))] if o['t'] == 'wilson' else []
    if o['t'] == 'smeft':
        seeds = seeds[:1]
    ops = [{'op': 'call', 'h': 0, 'c': gen_call(rng, o)} for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    ops += gen_ops(rng, o, rng.choice([3, 4, 5, 7]) if o['t'] != 'smeft' else 3, 0, seeds)
    if o['t'] == 'wilson' and o['targets']:
        # what is left in the caches shows
        for h in range(rng.choice([1, 2, 3])):
            ops.append({'op': 'call', 'h': h, 'c': dict(rng.choice(o['targets']), k='pipe', o=0)})
    if o['t'] == 'wilson' and rng.random() < 0.5:
        # a result is there, one side changes an option, both sides go on
        t = dict(rng.choice(o['targets']), k='pipe', o=0)
        n = 1 + sum(1 for x in ops if x['op'] == 'copy' and 'fail' not in x or 'back' in x)
        a, b = rng.randrange(n), rng.randrange(n)
        s = gen_call(rng, o)
        while s['k'] != 'set':
            s = gen_call(rng, o)
        m = [{'op': 'call', 'h': a, 'c': t}, {'op': 'call', 'h': b, 'c': s}, {'op': 'call', 'h': a, 'c': t}, {'op': 'call', 'h': b, 'c': t}]
        ops += m if rng.random() < 0.7 else m[1:]
    if o['t'] == 'wilson' and rng.random() < 0.25:
        # relatives with results of their own: what one is told the other knows or does not know
        t = dict(rng.choice(o['targets']), k='pipe', o=0)
        how = rng.choice(['copy', 'copy', 'deepcopy', 'pickle'])
        ks = [k for k in c01.relevant(o['spec'], t) if k not in ('smeft_accuracy', 'smeft_matching_order')]
        k = rng.choice(ks)
        v = rng.choice([v for v in work.OPTION_VALUES[k] if v != work.DEFAULTS[k]])
        x = rng.choice([0, 1])
        ops = [{'op': 'call', 'h': 0, 'c': t}] if rng.random() < 0.6 else []
        ops += [{'op': 'copy', 'h': 0, 'how': how, 'proto': rng.randrange(6)}, {'op': 'call', 'h': 1, 'c': t},
                {'op': 'call', 'h': x, 'c': {'k': 'set', 'o': 0, 'key': k, 'value': v}}, {'op': 'call', 'h': 1 - x, 'c': t}, {'op': 'call', 'h': x, 'c': t}]
    plan = {'obj': o, 'ops': ops, 'faults': []}
    for j, x in enumerate(ops):
        if x['op'] != 'call' or x['c']['k'] in ('opts', 'lazy', 'dump', 'default') or rng.random() > 0.3:
            continue
        loc = work.pick_line(rng, lines(o, x['c']))
        if not loc:
            continue
        f = {'op': j, 'at': ['0.%d' % j, loc[0], loc[1]]}
        if rng.random() < 0.3 and o['t'] == 'wilson':
            f.update(do='raise', exc=rng.choice(['KeyboardInterrupt', 'MemoryError']))
        else:
            f.update(do='fork', ops=gen_ops(rng, o, rng.choice([1, 2]), 2, seeds))
        plan['faults'].append(f)
    return plan


def lines(o, c):
    s = o['spec']
    ex = {k: v for k, v in o.items() if k != 'targets'}
    ex['spec'] = work.point(core.rng_of('example', s['eft'], s['basis']), s['eft'], s['basis'], s['scale'], 6)
    for k in ('parameters', 'options'):
        ex.pop(k, None)
    if ex['t'] == 'wilson':
        ex['options'] = {'smeft_accuracy': 'leadinglog'}
    c = {k: v for k, v in c.items() if k != 'sectors'}
    if c['k'] == 'pipe':
        c['sectors'] = 'all'
    if c['k'] == 'set':
        c.update(key='parameters', value={'Vcb': 0.04})

    def make():
        env = calls.Env([ex])
        return lambda: calls.run_call(env, c)
    return work.lines_for(['c20', ex, c], make)


# --- execution ---------------------------------------------------------------

class FailingMemo(dict):
    """deepcopy runs out of memory."""

    def __init__(self, n):
        self.n = n

    def __setitem__(self, k, v):
        self.n -= 1
        if self.n <= 0:
            raise MemoryError('injected')
        dict.__setitem__(self, k, v)


class FailingFile(io.BytesIO):
    def __init__(self, n):
        super().__init__()
        self.left = n

    def write(self, b):
        self.left -= 1
        if self.left <= 0:
            raise OSError(28, 'injected: no space left')
        return super().write(b)


def dumps(x, proto, pure=False, fail=None):
    f = FailingFile(fail) if fail else io.BytesIO()
    (pickle._Pickler if pure else pickle.Pickler)(f, proto).dump(x)
    return f.getvalue()


def loads(b, pure=False):
    return (pickle._Unpickler if pure else pickle.Unpickler)(io.BytesIO(b)).load()


def transfer(obj, x):
    fail = x.get('fail')
    if x['how'] == 'copy':
        return copy.copy(obj)
    if x['how'] == 'deepcopy':
        return copy.deepcopy(obj, FailingMemo(fail)) if fail else copy.deepcopy(obj)
    return loads(dumps(obj, x['proto'], x.get('pure'), fail), x.get('pure'))


class One:
    """An environment of one object for calls.run_call."""

    def __init__(self, obj):
        self.obj = obj

    def __getitem__(self, i):
        return self.obj


def shown(t, obj):
    return outcome(work.options_of, obj) if t == 'wilson' else None


def go(t, holders, ops, world=None, hits=None):
    """Execute the operations; a plain trace and the holders."""
    trace = []
    for i, x in enumerate(ops):
        obj = holders[x['h'] % len(holders)]
        if x['op'] == 'call':
            pre = shown(t, obj)
            if world:
                world.begin(i)
            r = outcome(calls.run_call, One(obj), x['c'])
            hit = 0
            if world:
                hit = world.sim.hits['0.%d' % i]
                world.end()
            if x['c']['k'] in ('set', 'default', 'clear') and r[0] == 'ok':
                r = ('ok', None)
            trace.append([x['h'] % len(holders), pre, calls._done(r), hit, shown(t, obj)])
        elif x['op'] == 'copy':
            r = outcome(transfer, obj, x)
            h = None
            if r[0] == 'ok':
                holders.append(r[1])
                h = [outcome(hash, obj), outcome(hash, r[1])] if t in ('wilson', 'wc') else [0, 0]
                h = h[0] == h[1]
            trace.append([x['h'] % len(holders) if r[0] != 'ok' else x['h'] % (len(holders) - 1), r[0] if r[0] == 'ok' else r, h])
        else:
            n = len(holders)
            if x['how'] == 'pickle':
                r = outcome(dumps, obj, x['proto'])
                st = pool.ask(x['hash'], 'remote', t, r[1], x) if r[0] == 'ok' else ('exc', repr(r))
            else:
                st = core.fork_call(remote, t, obj, x, timeout=200)
            if st[0] == 'ok':
                sub, back = st[1]
                if 'back' in x:
                    r = outcome(loads, back) if isinstance(back, bytes) else back
                    if r[0] == 'ok':
                        holders.append(r[1])
                        back = 'ok'
                    else:
                        back = r
                trace.append([x['h'] % n, sub, back])
            else:
                trace.append([x['h'] % n, None, [st[0], str(st[1])[-600:]]])
    return trace


def remote(t, obj, x):
    """In the other process."""
    from ..world import plane
    plane.active = False
    if isinstance(obj, bytes):
        for s in x.get('before', ()):
            outcome(lambda: calls.run_call(calls.Env(copy.deepcopy(s['objs'])), s['c']))
        obj = loads(obj)
    holders = [obj]
    tr = go(t, holders, x['ops'])
    back = None
    if 'back' in x:
        r = outcome(dumps, holders[0], x['back'])
        back = r[1] if r[0] == 'ok' else r
    return tr, back


def inherited(t, obj, x, world):
    """In a process forked in the middle of a call."""
    if world.watching:
        world.sim.stop()
    return go(t, [obj], x['ops'])


def execute(plan):
    o = plan['obj']
    t = o['t']
    forks = {}
    with work.World(plan) as world:
        holders = [calls.build({k: v for k, v in o.items() if k != 'targets'})]

        def on_fork(f):
            j = f['op']
            x = plan['ops'][j]
            obj = holders[x['h'] % len(holders)]
            st = core.fork_call(inherited, t, obj, f, world, timeout=200)
            forks[plan['faults'].index(f)] = [st[0], st[1] if st[0] == 'ok' else str(st[1])[-600:]]
        world.sim.on_fork = on_fork
        trace = go(t, holders, plan['ops'], world)
    ops, outC, states = collections.Counter(), collections.Counter(), set()
    ok = [0, 0]
    nf = collections.Counter(world.faults())

    def walk(tr, xs, path):
        names = [path]
        for e, x in zip(tr, xs):
            p = names[min(e[0], len(names) - 1)]
            if x['op'] == 'call':
                ops[x['c']['k']] += 1
                outC['%s:%s' % (x['c']['k'], 'ok' if e[2][0] == 'ok' else e[2][1])] += 1
                if e[2][0] == 'ok':
                    ok[p != ''] += 1
                states.add(core.digest([t, p, x['c'], repr(e[1])]))
            elif x['op'] == 'copy':
                ops[x['how']] += 1
                if 'fail' in x and e[1] != 'ok':
                    nf['transfer:fails'] += 1
                if e[1] == 'ok':
                    names.append(p + '/' + x['how'])
            else:
                ops['remote:' + x['how']] += 1
                nf['process:' + x['how']] += 1
                if e[1] is not None:
                    walk(e[1], x['ops'], p + '/remote ' + x['how'])
                if e[2] == 'ok':
                    names.append(p + '/back')
    walk(trace, plan['ops'], '')
    for k, st in forks.items():
        nf['process:fork-in-call'] += 1
        if st[0] == 'ok':
            walk(st[1], plan['faults'][k]['ops'], '/fork')
    return {'trace': [trace, sorted(forks.items())], 'faults': dict(nf), 'ops': ops, 'outcomes': outC, 'states': states,
            'steps': world.sim.step, 'nontrivial': min(ok) > 0}


# --- judging -----------------------------------------------------------------

def judge(plan, obs, refs):
    o = plan['obj']
    t = o['t']
    bare = {k: v for k, v in o.items() if k != 'targets'}
    out = []

    def bad(kind_, msg):
        out.append(Violation(kind_, msg))

    def fresh(options):
        d = dict(work.DEFAULTS)
        d.update(options)
        return {'opt': d, 'weak': False}

    def check_ops(trace, ops, holders, where, tops=None):
        for i, (e, x) in enumerate(zip(trace, ops)):
            m = holders[e[0]]
            what = '%soperation %d %r' % (where, i, {k: v for k, v in x.items() if k != 'ops'})
            if x['op'] == 'call':
                call(e, x['c'], m, what, holders)
                if tops is not None:
                    for f in tops.get(i, ()):
                        sub = obs['trace'][1]
                        st = dict(sub).get(f[0])
                        if st is None:
                            continue
                        w2 = what + ', forked at %s: ' % f[1]['at'][1:]
                        if st[0] != 'ok':
                            bad('fork-failed', w2 + str(st))
                            continue
                        cands = [{'opt': e[1][1], 'weak': True}] if t == 'wilson' else [fresh({})]
                        if t == 'wilson' and st[1] and e[1][0] == 'ok':
                            # the options at the fork are those before or after the call
                            seen = st[1][0][1][1] if f[1]['ops'] and f[1]['ops'][0]['op'] == 'call' else None
                            if seen is not None and seen != e[1][1] and seen != e[4][1]:
                                bad('option-wrong', w2 + 'options are %r' % seen)
                        check_ops(st[1], f[1]['ops'], cands, w2)
            elif x['op'] == 'copy':
                if e[1] == 'ok':
                    if e[2] is False:
                        bad('hash-differs', '%s: the copy has another hash' % what)
                    n = {'opt': dict(m['opt']), 'weak': m['weak']}
                    if x['how'] == 'copy':
                        n['weak'] = m['weak'] = True
                    holders.append(n)
                elif 'fail' not in x:
                    bad('transfer-failed', '%s: %s' % (what, e[1]))
            else:
                if e[1] is None:
                    bad('transfer-failed', '%s: %s' % (what, e[2]))
                    continue
                sub = [{'opt': dict(m['opt']), 'weak': m['weak']}]
                check_ops(e[1], x['ops'], sub, what + ': ')
                if 'back' in x:
                    if e[2] != 'ok':
                        bad('transfer-failed', '%s, back: %s' % (what, e[2]))
                    else:
                        holders.append({'opt': dict(sub[0]['opt']), 'weak': sub[0]['weak']})

    def call(e, c, m, what, holders):
        _, pre, r, hit, post = e
        if t == 'wilson':
            if pre[0] != 'ok' or post[0] != 'ok':
                return bad('get_option-fails', '%s: %s %s' % (what, pre, post))
            if not m['weak'] and pre[1] != m['opt']:
                bad('option-wrong', 'before %s the options are %r, should be %r' % (what, pre[1], m['opt']))
            m['opt'] = dict(pre[1])
            if c['k'] == 'set':
                new = dict(m['opt'])
                new[c['key']] = c['value']
                if r[0] == 'ok' or (hit and post[1] == new):
                    m['opt'] = new
                elif not hit:
                    bad('call-failed', '%s: %s' % (what, r))
            if post[1] != m['opt']:
                bad('option-wrong', 'after %s the options are %r, should be %r' % (what, post[1], m['opt']))
                m['opt'] = dict(post[1])
        if hit and r[0] != 'ok':
            return
        if c['k'] in ('set', 'default', 'clear'):
            if r[0] != 'ok':
                bad('call-failed', '%s: %s' % (what, r))
            return
        if c['k'] == 'opts':
            return
        if c['k'] == 'pipe':
            ref = refs('pipeline', o['spec'], m['opt'], c['scale'], c['eft'], c['basis'], c['sectors'])
            if ref[0] == 'ok':
                ref = ('ok', dict(ref[1], __wc__=1))
        else:
            ref = refs('call', [bare], c)
        if r[0] != ref[0]:
            bad('outcome-differs', '%s: %s, in a fresh process %s' % (what, r if r[0] != 'ok' else 'a result', ref if ref[0] != 'ok' else 'a result'))
        elif r[0] == 'ok':
            if c['k'] == 'dump':
                d = None if r[1] == ref[1] else 'texts differ'
            else:
                d = calls.differs(r[1], ref[1])
            if d:
                bad('result-differs', '%s with options %s differs from a fresh process: %s' % (what, m['opt'] if t == 'wilson' else '-', d))

    first = fresh(o.get('options', {}))
    tops = {}
    for k, f in enumerate(plan['faults']):
        if f['do'] == 'fork':
            tops.setdefault(f['op'], []).append((k, f))
    check_ops(obs['trace'][0], plan['ops'], [first], '', tops)
    return out


def reference(name, *a):
    if name == 'pipeline':
        return work.ref_pipeline(*a)
    return calls.ref_call(*a)


def fix_shrunk(plan, path, removed):
    return work.move_faults(plan, removed) if path == ('ops',) else plan


def shrink_paths(plan):
    return [('ops',), ('faults',)] + [('ops', j, 'ops') for j, x in enumerate(plan['ops']) if 'ops' in x]
