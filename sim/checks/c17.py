"""C17: the same calls give the same results in every process."""
import collections
import copy
import json
import random

from .. import calls, core, work
from ..calls import kind
from ..core import Violation, outcome
from ..hserver import Pool
from . import c01, c07, c08, c09, c15, c16, c21

ID = 'C17'
RUNS = {'quick': 240, 'thorough': 12000}
CAP = {'quick': 400, 'thorough': 1600}
RULE = ('A run executes a program of 2-5 computations (QCD running, WET and SMEFT running, translation, matching, match_run, file output, views, converters, command line tools) in 3 processes '
        'with different hash seeds, insertion orders of all input dictionaries, preceding computations, random states, time zones and warnings, and compares all results. '
        'Non-trivial: at least two hash seeds and two dictionary orders.')
REAL = work.REAL_ALL + ['wilson/wcxf/cli.py', 'wilson/wcxf/converters/']
STUBS = [work.STUB_DEFS]
ASSUMPTIONS = [work.ASSUME_DEFS, 'Each hash seed is one interpreter; a process forked from it before any computation stands for a fresh one.',
               'Results agree if they differ by less than 1e-9 of the largest coefficient.']
STATES = 'distinct (program, result)'
TIMEOUT = 260
SEED = 1

pool = Pool('C17')


def before(plan):
    pool.ensure(sorted({v['hash'] for v in plan['variants']}))


# --- further kinds ----------------------------------------------------------

@kind('pipe')
def _pipe(env, c):
    sec = c['sectors'] if c['sectors'] == 'all' else tuple(c['sectors'])
    return env[c['o']].match_run(c['scale'], c['eft'], c['basis'], sectors=sec)


@kind('dump')
def _dump(env, c):
    return {'text': env[c['o']].dump(fmt=c['fmt'])}


@kind('wdump')
def _wdump(env, c):
    w = env[c['o']]
    return {'text': w.wc.dump(fmt=c['fmt'])}


@kind('views')
def _views(env, c):
    from wilson import wcxf
    wc = env[c['o']]
    b = wcxf.Basis[wc.eft, wc.basis]
    if c.get('validate'):
        outcome(b.validate)
        return {'text': '\n'.join([str(b), b.dump(fmt=c['fmt']), repr(list(b.sectors)), repr(b.all_wcs), wcxf.EFT[wc.eft].dump(fmt=c['fmt'])])}
    return {'text': '\n'.join([str(wc), wc._repr_html_(), repr(wc), str(b), repr(b.all_wcs), repr(sorted(wc.df.index)), str(wc.df), repr(list(wc.dict.items())),
                               repr(sorted(wcxf.EFT[wc.eft].known_bases)), repr(sorted(wcxf.EFT[wc.eft].known_translators)),
                               repr({k: sorted(v) for k, v in b.known_translators.items()}), repr(wc.validate())])}


@kind('tool')
def _tool(env, c):
    """A command line tool on a file, with file output."""
    import sys
    from wilson.wcxf import cli
    with work.Scratch() as sc:
        sc.put('in', env[c['o']].dump(fmt=c['ifmt']))
        argv = [a.replace('@', sc.path('')) for a in c['argv']]
        old = sys.argv
        sys.argv = ['tool'] + argv
        try:
            r = outcome(getattr(cli, c['main']))
        finally:
            sys.argv = old
        out = sc.get('out')
        if out is None and c['main'] != 'smeftsim':
            return [r[0] == 'ok', r[1] if r[0] == 'ok' else r[1:], None]
        t = out.decode('utf-8') if out is not None else ''
        return [r[0] if r[0] == 'ok' else list(r[1:]), {'text': t}]


@kind('basis_err')
def _basis_err(env, c):
    """Which error an invalid object gives."""
    from wilson import wcxf
    wc = env[c['o']]
    return wcxf.WC(wc.eft, wc.basis, wc.scale, dict(wc.values, **{k: 1.0 for k in c['bad']})).validate()


# --- plans -------------------------------------------------------------------

def full(rng, o):
    """Sometimes all sectors of the basis at once: the order in which sectors
    are handled is seen only then."""
    s = o['spec']
    if s['eft'] != 'SMEFT' and rng.random() < 0.4:
        o = dict(o, spec=work.point(rng, s['eft'], s['basis'], s['scale'], n=rng.choice([40, 150, 400])))
    return o


def gen_step(rng):
    r = rng.random()
    if r < 0.08:
        return {'objs': [], 'c': c07.gen_call(rng)}
    if r < 0.22:
        o = c08.gen_obj(rng)
        return {'objs': [o], 'c': c08.gen_call(rng, [o], 0)}
    if r < 0.3:
        o = {'t': 'smeft', 'spec': c09.gen_spec(rng)}
        c = c09.gen_call(rng, 0, False)
        if c.get('acc') == 'integrate' and rng.random() < 0.6:
            c['acc'] = 'leadinglog'
        return {'objs': [o], 'c': c}
    if r < 0.55:
        o = full(rng, c21.gen_obj(rng))
        return {'objs': [o], 'c': c21.gen_call(rng, [o], 0)}
    if r < 0.7:
        s = c01.gen_point(rng)
        t = c01.gen_target(rng, s)
        o = {'t': 'wilson', 'spec': s, 'options': {'smeft_accuracy': 'leadinglog'} if rng.random() < 0.8 else {}}
        if rng.random() < 0.15:
            return {'objs': [o], 'c': {'k': 'wdump', 'o': 0, 'fmt': rng.choice(['json', 'yaml'])}}
        return {'objs': [o], 'c': dict(t, k='pipe', o=0)}
    if r < 0.78:
        o = c21.gen_obj(rng)
        c = {'k': rng.choice(['dump', 'views']), 'o': 0, 'fmt': rng.choice(['json', 'yaml'])}
        if c['k'] == 'views' and rng.random() < 0.4:
            c['validate'] = 1
        return {'objs': [o], 'c': c}
    if r < 0.82:
        o = c21.gen_obj(rng)
        return {'objs': [o], 'c': {'k': 'basis_err', 'o': 0, 'bad': rng.sample(['nope', 'zzz', 'C9_foo', 'C10'], rng.choice([1, 1, 1, 2]))}}
    if r < 0.88:
        o = c15.gen_obj(rng)
        c = c15.gen_call(rng, [o], 0)
        return {'objs': [o], 'c': c}
    if r < 0.92:
        o = {'t': 'wc', 'spec': c16.gen_spec(rng)}
        return {'objs': [o], 'c': {'k': 'tool', 'o': 0, 'main': 'wcxf2dsixtools', 'ifmt': 'json', 'argv': ['@/in', '--output', '@/out']}}
    o = full(rng, c21.gen_obj(rng))
    s = o['spec']
    what = rng.choice(['convert', 'translate', 'match'])
    m = c21.MATCH.get((s['eft'], s['basis']))
    if what == 'match' and not m:
        what = 'translate'
    argv = [what]
    if what == 'convert':
        argv += [rng.choice(['json', 'yaml']), '@/in']
    elif what == 'translate':
        argv += [rng.choice([t for e, b, ts in c21.TR if (e, b) == (s['eft'], s['basis']) for t in ts]), '@/in']
    else:
        argv += list(rng.choice(m)) + ['@/in']
    if what != 'convert' and rng.random() < 0.5:
        argv += ['--format', rng.choice(['json', 'yaml'])]
    return {'objs': [o], 'c': {'k': 'tool', 'o': 0, 'main': 'wcxf_cli', 'ifmt': rng.choice(['json', 'yaml']), 'argv': argv + ['--output', '@/out']}}


def generate(rng, i):
    # a few hash seeds per group of runs, as each of them is one interpreter
    g = core.rng_of('hashseeds', SEED, i % 8, i // 800)
    seeds = [g.randrange(1, 4294967295) for _ in range(3)] + [0]
    steps = [gen_step(rng) for _ in range(rng.choice([2, 3, 4, 5]))]
    variants = []
    for v in range(3):
        x = {'hash': rng.choice(seeds), 'order': 0 if rng.random() < 0.5 else rng.randrange(1, 10 ** 6), 'before': [], 'random': rng.randrange(10 ** 6)}
        if v and x['hash'] == variants[0]['hash']:
            x['hash'] = rng.choice([s for s in seeds if s != variants[0]['hash']])
        if rng.random() < 0.6:
            x['before'] = [gen_step(rng) for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < 0.4:
            x['shuffle'] = rng.randrange(10 ** 6)            # the steps in another order
        if rng.random() < 0.3:
            x['warn'] = 1
        if rng.random() < 0.3:
            x['tz'] = rng.choice(['Asia/Tokyo', 'UTC', 'America/New_York'])
        variants.append(x)
    return {'steps': steps, 'variants': variants}


def permuted(objs, order):
    objs = copy.deepcopy(objs)
    if order:
        for k, o in enumerate(objs):
            r = random.Random('%s|%s' % (order, k))
            for d in [o.get('spec', {}).get('values'), o.get('parameters'), o.get('options')]:
                if isinstance(d, dict):
                    it = list(d.items())
                    r.shuffle(it)
                    d.clear()
                    d.update(it)
    return objs


def serve(plan, v):
    """Runs inside a process with the hash seed of variant v."""
    import os
    import warnings
    x = plan['variants'][v]
    random.seed(x['random'])
    if 'tz' in x:
        import time
        os.environ['TZ'] = x['tz']
        time.tzset()
    if x.get('warn'):
        warnings.simplefilter('ignore')
        import wilson
        w = wilson.Wilson({'VddLL_1323': 1e-6}, 120., 'WET', 'JMS')
        w.set_option('parameters', {'delta': 1.2})
        warnings.warn('something else')
    for s in x['before']:
        outcome(lambda: calls.run_call(calls.Env(permuted(s['objs'], x['order'])), s['c']))
    order = list(range(len(plan['steps'])))
    if 'shuffle' in x:
        random.Random(x['shuffle']).shuffle(order)
    out = {}
    for j in order:
        s = plan['steps'][j]
        out[j] = calls._done(outcome(lambda: calls.run_call(calls.Env(permuted(s['objs'], x['order'])), s['c'])))
    return [out[j] for j in range(len(plan['steps']))]


def execute(plan):
    trace = []
    for v, x in enumerate(plan['variants']):
        st = pool.ask(x['hash'], 'serve', plan, v)
        if st[0] != 'ok':
            raise RuntimeError('variant %d: %s' % (v, st))
        trace.append(st[1])
    ops, outC = collections.Counter(), collections.Counter()
    for s in plan['steps']:
        ops[s['c']['k']] += len(plan['variants'])
    for t in trace:
        for r in t:
            outC['ok' if r[0] == 'ok' else r[1]] += 1
    f = {'process:hash-seed': len({x['hash'] for x in plan['variants']}), 'input:dictionary-order': len({x['order'] for x in plan['variants']}),
         'history:computation-before': sum(len(x['before']) for x in plan['variants']), 'history:other-order': sum('shuffle' in x for x in plan['variants']),
         'process:warnings': sum('warn' in x for x in plan['variants']), 'process:timezone': sum('tz' in x for x in plan['variants'])}
    return {'trace': trace, 'faults': {k: n for k, n in f.items() if n}, 'ops': ops, 'outcomes': outC,
            'states': {core.digest([s, r]) for s, r in zip(plan['steps'], trace[0])}, 'steps': 0,
            'nontrivial': f['process:hash-seed'] > 1 and f['input:dictionary-order'] > 1}


def differ(a, b, same_order):
    if isinstance(a, dict) and 'text' in a and isinstance(b, dict) and 'text' in b:
        if a['text'] == b['text']:
            return None
        ta, tb = sorted(a['text'].split('\n')), sorted(b['text'].split('\n'))
        if same_order:
            return 'texts differ: %s' % [x for x in zip(a['text'].split('\n'), b['text'].split('\n')) if x[0] != x[1]][:2]
        ta, tb = [x.rstrip(', ') for x in ta], [x.rstrip(', ') for x in tb]
        pa, pb = _parse(a['text']), _parse(b['text'])
        if pa is not None and pb is not None:
            return calls.differs(calls.plain(pa), calls.plain(pb), 1e-9, 0, zero=False)
        if sorted(ta) != sorted(tb) and not _table(a['text']):
            return 'texts differ: %s' % [x for x in zip(ta, tb) if x[0] != x[1]][:2]
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return 'lengths differ'
        for x, y in zip(a, b):
            e = differ(x, y, same_order)
            if e:
                return e
        return None
    if same_order and isinstance(a, dict) and isinstance(b, dict) and a.get('__wc__') and b.get('__wc__'):
        # files written from the result have the coefficients in this order
        ka, kb = [[k for k in x['values'] if k in y['values']] for x, y in ((a, b), (b, a))]
        if ka != kb:
            return 'the coefficients are in another order: %s' % [x for x in zip(ka, kb) if x[0] != x[1]][:2]
    return calls.differs(a, b, 1e-9, 1e-13)


def _table(t):
    return t.startswith('## WCxf')        # views: the order of the rows is that of the input


def _parse(t):
    import yaml
    try:
        return json.loads(t)
    except ValueError:
        pass
    try:
        d = yaml.load(t, getattr(yaml, 'CSafeLoader', yaml.SafeLoader))
        return d if isinstance(d, dict) and 'values' in d else None
    except Exception:
        return None


def judge(plan, obs, refs):
    out = []
    t0 = obs['trace'][0]
    x0 = plan['variants'][0]
    for v, t in enumerate(obs['trace'][1:], 1):
        x = plan['variants'][v]
        for j, (a, b) in enumerate(zip(t0, t)):
            c = plan['steps'][j]['c']
            what = 'step %d %s: hash seed %s/%s, dictionary order %s/%s' % (j, json.dumps(c), x0['hash'], x['hash'], x0['order'], x['order'])
            if a[0] != b[0]:
                out.append(Violation('outcome-differs', '%s: %s vs %s' % (what, a[:3] if a[0] != 'ok' else 'ok', b[:3] if b[0] != 'ok' else 'ok')))
            elif a[0] != 'ok':
                if a[1] != b[1]:
                    out.append(Violation('error-differs', '%s: %s vs %s' % (what, a[1:], b[1:])))
            else:
                e = differ(a[1], b[1], x0['order'] == x['order'])
                if e:
                    out.append(Violation('result-differs', '%s: %s' % (what, e)))
    return out


def shrink_paths(plan):
    return [('steps',)] + [('variants', v, 'before') for v in range(len(plan['variants']))] + ([('variants',)] if len(plan['variants']) > 2 else [])


def simplify(plan):
    for v in range(len(plan['variants'])):
        for k in ('shuffle', 'warn', 'tz'):
            if k in plan['variants'][v]:
                q = copy.deepcopy(plan)
                del q['variants'][v][k]
                yield q
