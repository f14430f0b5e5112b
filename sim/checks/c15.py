"""C15: SMEFTsim cards depend on the given coefficients only."""
import copy
import json

from .. import calls, core, work
from ..core import Violation

ID = 'C15'
RUNS = {'quick': 400, 'thorough': 12000}
CAP = {'quick': 300, 'thorough': 1300}
RULE = ('A run makes 2-6 SMEFTsim cards (both model sets and input schemes, several cutoff scales) from 1-3 WC objects in one to three threads, new cards and '
        'cards that were filled before, with switches and interruptions inside the making of a card and failing allocations. The reference is '
        'the same card made first thing in a fresh process, and for each entry the card of the single coefficient that belongs to it. '
        'Non-trivial: two cards were made (sequential) or a switch happened (threads).')
REAL = ['wilson/wcxf/converters/smeftsim.py', 'wilson/util/smeftutil.py', 'wilson/wcxf/classes.py', 'pylha', 'numpy']
STUBS = [work.STUB_DEFS]
ASSUMPTIONS = [work.ASSUME_DEFS, work.ASSUME_FORK, 'A card that two threads fill at the same time belongs to neither; only single threads fill a card again.']
STATES = 'distinct windows of four calls (kind, outcome, hit); completion orders for threads'

FILES = ('wilson/wcxf/converters/smeftsim.py', 'wilson/util/smeftutil.py', 'wilson/wcxf/classes.py')
LAM = [1000.0, 2000.0, 500.0, 1e4]
LIKE = [None, None, 'phi', 'll', 'lequ', 'quqd', 'qq', 'G', 'uu', 'phil', 'ledq']


def gen_obj(rng):
    b = rng.choice(['Warsaw mass', 'Warsaw mass', 'Warsaw'])
    n = rng.choice([1, 2, 3, 6, 12, 40])
    s = work.point(rng, 'SMEFT', b, rng.choice([1000.0, 91.1876]), n, like=rng.choice(LIKE))
    return {'t': 'wc', 'spec': s}


def gen_call(rng, objs, k, shared=None):
    r = rng.random()
    c = {'k': 'card', 'o': k, 'model': rng.choice(['A', 'B']), 'scale': rng.choice(LAM), 'scheme': rng.choice(['alpha', 'mw'])}
    if r < 0.12:
        c = {'k': 'card_text', 'model': c['model'], 'scheme': c['scheme']}
    elif r < 0.2:
        c['k'] = 'card_file'
    elif r < 0.45 and shared is not None:
        j = rng.choice(shared)
        c.update(k='card_again', card=j, model=objs[j]['model'])
    return c


def canon(plan, c):
    spec = work.point(core.rng_of('example-card'), 'SMEFT', 'Warsaw mass', 1000.0, 20)
    objs = [{'t': 'wc', 'spec': spec}, {'t': 'card', 'model': c['model']}]
    d = dict(c, scale=1000.0)
    if 'o' in c:
        d['o'] = 0
    if 'card' in c:
        d['card'] = 1
    return objs, d


def generate(rng, i):
    objs = [gen_obj(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
    if rng.random() < 0.5:                     # the same coefficients, other values; or a part of them
        o = copy.deepcopy(rng.choice(objs))
        v = o['spec']['values']
        for k in list(v):
            r = rng.random()
            if r < 0.4:
                del v[k]
            elif r < 0.8:
                v[k] = [2 * x for x in v[k]] if isinstance(v[k], list) else 2 * v[k]
        objs.append(o)
    n_wc = len(objs)
    nt = 1 if rng.random() < 0.6 else rng.choice([2, 2, 3])
    shared = None
    if nt == 1:
        for m in rng.choice([[], ['A'], ['B'], ['A', 'B']]):
            objs.append({'t': 'card', 'model': m})
        shared = list(range(n_wc, len(objs))) or None
    n = rng.choice([1, 2, 3, 4]) if nt == 1 else rng.choice([1, 2])
    pool = [gen_call(rng, objs, k, shared) for k in range(n_wc) for _ in range(2)]
    plan = {'objs': objs, 'threads': [[rng.choice(pool) for _ in range(n)] for _ in range(nt)], 'faults': []}
    if nt > 1:
        calls.add_switches(rng, plan, canon, prefer=FILES)
        if rng.random() < 0.3:
            calls.add_raises(rng, plan, canon, prefer=FILES)
    else:
        if rng.random() < 0.6:
            calls.add_raises(rng, plan, canon, 1, prefer=FILES)
        if rng.random() < 0.2:
            calls.add_lib(rng, plan, [('einsum', 'MemoryError')], 1, 3)
        plan['threads'][0].append(dict(rng.choice(plan['threads'][0])))
    return plan


def execute(plan):
    return calls.execute(plan)


def _new(plan, c):
    """The reference of filling a card again is a new card."""
    return dict({k: v for k, v in c.items() if k != 'card'}, k='card') if c['k'] == 'card_again' else c


def judge(plan, obs, refs):
    p = dict(plan, threads=[[_new(plan, c) for c in t] for t in plan['threads']])
    out = calls.judge(p, obs, refs, rtol=0, atol=0)
    # entry by entry: only the coefficient that belongs to it
    done = set()
    for t, i, hit, r in obs['trace']:
        c = p['threads'][t][i]
        if r[0] != 'ok' or c['k'] != 'card' or done or plan.get('index', 0) % 4:
            continue
        key = core.digest([c])
        if key in done:
            continue
        done.add(key)
        spec = p['objs'][c['o']]['spec']
        ks = sorted(spec['values'])[:4]
        empty = refs('call', [one(spec, [])], dict(c, o=0))
        singles = {k: refs('call', [one(spec, [k])], dict(c, o=0)) for k in ks}
        if empty[0] != 'ok' or any(s[0] != 'ok' for s in singles.values()):
            continue
        full = refs('call', [one(spec, ks)], dict(c, o=0))
        if full[0] != 'ok':
            continue
        want = json.loads(json.dumps(empty[1]))
        for k in ks:
            for b, vs in singles[k][1].items():
                for j, v in enumerate(vs):
                    if v != empty[1][b][j]:
                        want[b][j] = v
        d = calls.differs(full[1], want, 0, 0)
        if d:
            out.append(Violation('foreign-value', 'the card of %s has entries that no single coefficient gives: %s' % (json.dumps({k: spec['values'][k] for k in ks}), d)))
        for b, vs in empty[1].items():
            for v in vs:
                if 'LambdaSMEFT' in str(v[-1]):
                    if float(v[1]) != c['scale']:
                        out.append(Violation('wrong-cutoff', 'the cutoff scale of the card is %r, not %r' % (v[1], c['scale'])))
                elif str(v[-1]).startswith('# c') and float(v[-2]) != 0:
                    out.append(Violation('not-zero', 'a card without coefficients has %r in %s' % (v, b)))
    return out


def one(spec, keys):
    return {'t': 'wc', 'spec': dict(spec, values={k: spec['values'][k] for k in keys})}


def reference(name, *a):
    return calls.ref_call(*a)


fix_shrunk = calls.fix_shrunk
