"""Programs of public calls.

A plan holds objects and one or more threads, each a list of calls:

  objs     [{'t': 'wc'|'wet'|'smeft', ...}]
  threads  [[{'k': kind, ...}, ...], ...]
  faults   raise at a line / library failure   (addresses "<thread>.<call>")
  sched    switches

Every call is a computation whose result must depend on its arguments only:
the oracle is the same call in a fresh process.
"""
import collections
import json

from . import core, sched, work
from .core import Violation, outcome
from .work import World
from .world import plane

KINDS = {}
SHAPE = {}


def kind(name):
    def deco(f):
        KINDS[name] = f
        return f
    return deco


def plain(x):
    """Live results as plain data."""
    import numpy as np
    from wilson import wcxf
    if isinstance(x, wcxf.WC):
        return dict(work.snap(x), __wc__=1)
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (np.floating, float)) and not isinstance(x, bool):
        return float(x)
    if isinstance(x, (np.integer, int)):
        return x if isinstance(x, bool) else float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return complex(x)
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def _numeric(d):
    return isinstance(d, dict) and d and all(isinstance(v, (int, float, complex)) and not isinstance(v, bool) for v in d.values())


def differs(a, b, rtol=1e-7, atol=1e-12, zero=True):
    """None if the two plain results agree, else a description."""
    if isinstance(a, dict) and isinstance(b, dict):
        if a.get('__wc__') or b.get('__wc__'):
            return work.close_snap(a, b, rtol=rtol, atol=atol) if a.get('__wc__') and b.get('__wc__') else 'kinds differ'
        if _numeric(a) and _numeric(b):
            if not zero and set(a) != set(b):
                return 'keys differ: %r' % sorted(set(a) ^ set(b))[:5]
            return work.close_values(a, b, rtol=rtol, atol=atol)
        if set(a) != set(b):
            return 'keys differ: %r' % sorted(set(a) ^ set(b))[:5]
        for k in a:
            d = differs(a[k], b[k], rtol, atol, zero)
            if d:
                return '%s: %s' % (k, d)
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return 'lengths %d vs %d' % (len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differs(x, y, rtol, atol, zero)
            if d:
                return '[%d] %s' % (i, d)
        return None
    if isinstance(a, (float, complex)) and isinstance(b, (float, complex)):
        if a != a and b != b:
            return None
        if a == b or abs(a - b) <= rtol * max(abs(a), abs(b)):
            return None
        return '%r vs %r' % (a, b)
    return None if a == b else '%r vs %r' % (a, b)


# ---------------------------------------------------------------------------
# objects

def build(o):
    from wilson.run.wet import WETrunner
    from wilson.run.smeft import SMEFT
    t = o['t']
    if t == 'wc':
        return work.wc_of(o['spec'])
    if t == 'wet':
        kw = {k: o[k] for k in ('qed_order', 'qcd_order') if k in o}
        if 'parameters' in o:
            kw['parameters'] = dict(o['parameters'])
        return WETrunner(work.wc_of(o['spec']), **kw)
    if t == 'smeft':
        return SMEFT(work.wc_of(o['spec']))
    if t == 'wilson':
        w = work.wilson_of(o['spec'])
        for k, v in o.get('options', {}).items():
            w.set_option(k, dict(v) if isinstance(v, dict) else v)
        return w
    if t == 'card':
        from wilson.wcxf.converters import smeftsim
        return smeftsim.initialize_smeftsim_card(o['model'])
    if t == 'io':
        from wilson.wcxf.converters import dsixtools
        return dsixtools.SMEFTio()
    raise KeyError(t)


def state_of(o, obj):
    """What must not change by computations with the object."""
    if o['t'] == 'wc':
        return plain(obj)
    if o['t'] == 'wet':
        return plain([obj.C_in, obj.scale_in, obj.parameters, obj.eft, obj.qed_order, obj.qcd_order])
    if o['t'] == 'smeft':
        return plain([obj.C_in, obj.scale_in, obj.wc])
    if o['t'] == 'wilson':
        return plain([obj.wc, work.options_of(obj)])


class Env:
    def __init__(self, objs):
        self.specs = objs
        self.objs = [build(o) for o in objs]

    def __getitem__(self, i):
        return self.objs[i]


def run_call(env, c):
    return KINDS[c['k']](env, c)


def ref_call(objs, c):
    """The reference: the same call, first thing in a fresh process, with
    only the object it uses."""
    env = Env(objs)
    return _done(outcome(run_call, env, c))


def _done(r):
    return ('ok', plain(r[1])) if r[0] == 'ok' else r


def _overridden(par):
    """Give the parameters to everybody, as defaults."""
    import wilson.parameters
    from wilson.run.smeft import smpar
    wilson.parameters.p.update(par)
    smpar.p.update(par)


def ref_global(objs, c):
    """Another reference: parameters given to a call mean what they would
    mean as defaults (in a fresh process, where nobody else sees them)."""
    par = dict(c.get('parameters') or {})
    keep = {k: par.pop(k) for k in ('loop_order',) if k in par}
    _overridden(par)
    return ref_call(objs, dict(c, parameters=keep or None))


def ref_explicit(objs, c):
    """And: parameters that are not given are the defaults."""
    import wilson.parameters
    from wilson.run.smeft import smpar
    base = smpar.p if c['k'] == 'match' and objs[0]['spec']['eft'] == 'SMEFT' else wilson.parameters.p
    return ref_call(objs, dict(c, parameters=dict(base, **(c.get('parameters') or {}))))


def ref_wet_global(objs, c):
    o = dict(objs[0])
    _overridden(o.pop('parameters', None) or {})
    return ref_call([o], c)


def narrow(objs, c):
    """Only the object the call uses, so that references are shared."""
    if 'o' not in c:
        return [], c
    return [objs[c['o']]], dict(c, o=0)


# ---------------------------------------------------------------------------
# kinds

def _params(c):
    return dict(c['parameters']) if c.get('parameters') is not None else None


@kind('qcd')
def _qcd(env, c):
    from wilson.util import qcd
    return getattr(qcd, c['f'])(*c['args'], **c.get('kw', {}))


@kind('wet')
def _wet(env, c):
    s = c.get('sectors', 'all')
    return env[c['o']].run(c['scale'], sectors=s if s == 'all' else tuple(s))


@kind('smeft')
def _smeft(env, c):
    return env[c['o']].run(c['scale'], accuracy=c.get('acc', 'integrate'), **c.get('kw', {}))


@kind('smeft_cont')
def _smeft_cont(env, c):
    f = env[c['o']].run_continuous(c['scale'])
    return [f.scale_min, f.scale_max, {k: v for k, v in f.fun(c['at']).items() if v}]


@kind('smeft_new')
def _smeft_new(env, c):
    """Construct and run in one call: the constructor integrates as well."""
    from wilson.run.smeft import SMEFT
    s = SMEFT(env[c['o']])
    return s.run(c['scale'], accuracy=c.get('acc', 'integrate'))


@kind('smpar')
def _smpar(env, c):
    return env[c['o']].get_smpar(accuracy=c.get('acc', 'integrate'))


@kind('smeftpar')
def _smeftpar(env, c):
    """The SM parameters of a point, in both flavour bases."""
    from wilson.run.smeft import smpar
    o = env[c['o']]
    return smpar.smeftpar(o.scale_in, o.C_in, c['basis'])


@kind('tr')
def _tr(env, c):
    s = c.get('sectors')
    return env[c['o']].translate(c['to'], parameters=_params(c), sectors=tuple(s) if s else None)


@kind('match')
def _match(env, c):
    return env[c['o']].match(c['eft'], c['basis'], parameters=_params(c))


def _card(card):
    return {b: [list(v) for v in x['values']] for b, x in card['Block'].items()}


@kind('card')
def _card_new(env, c):
    """A new card, filled with the coefficients of a WC object."""
    from wilson.wcxf.converters import smeftsim
    card = smeftsim.initialize_smeftsim_card(c['model'])
    return _card(smeftsim.smeftsim_card_fill(card, env[c['o']], c['model'], c['scale'], c['scheme']))


@kind('card_again')
def _card_again(env, c):
    """The same, with a card that was used before."""
    from wilson.wcxf.converters import smeftsim
    return _card(smeftsim.smeftsim_card_fill(env[c['card']], env[c['o']], c['model'], c['scale'], c['scheme']))


@kind('card_text')
def _card_text(env, c):
    from wilson.wcxf.converters import smeftsim
    return list(smeftsim.smeftsim_card_text(c['model'], c['scheme']))


@kind('card_file')
def _card_file(env, c):
    import pylha
    from wilson.wcxf.converters import smeftsim
    card = smeftsim.initialize_smeftsim_card(c['model'])
    card = smeftsim.smeftsim_card_fill(card, env[c['o']], c['model'], c['scale'], c['scheme'])
    a, b = smeftsim.smeftsim_card_text(c['model'], c['scheme'])
    return a + pylha.dump(card, fmt='lha') + b


MORE = {'global': 'parameters given to the call do not have the effect they have as defaults',
        'explicit': 'the result changes when the parameters that are not given are given with their default values',
        'wet_global': 'parameters given to the runner do not have the effect they have as defaults'}


# ---------------------------------------------------------------------------
# execution

def execute(plan, extra=None):
    threads = plan['threads']
    if len(threads) > 1:
        return _threaded(plan, extra)
    with World(dict(plan, faults=plan.get('faults', []))) as world:
        env = Env(plan['objs'])
        before = [state_of(o, x) for o, x in zip(plan['objs'], env.objs)]
        trace, live = [], []
        ops, outs, states = collections.Counter(), collections.Counter(), set()
        hist = []
        for i, c in enumerate(threads[0]):
            world.begin(i)
            r = outcome(run_call, env, c)
            hit = world.fired()
            world.end()
            ops[c['k']] += 1
            outs['%s:%s' % (c['k'], r[0] if r[0] == 'ok' else r[1])] += 1
            if r[0] == 'ok':
                live.append(('call %d' % i, r[1], plain(r[1])))
            trace.append([0, i, hit, _done(r)])
            hist.append([c['k'], r[0], bool(hit)])
            states.add(core.digest(hist[-4:]))
        changed = _changed(plan, env, before, live)
        x = extra(env) if extra else None
    return {'trace': trace, 'changed': changed, 'faults': world.faults(), 'ops': ops, 'outcomes': outs,
            'states': states, 'steps': world.sim.step, 'extra_state': x,
            'nontrivial': sum(1 for t in trace if t[3][0] == 'ok') >= 2}


def _changed(plan, env, before, live):
    out = []
    for (o, x), b in zip(zip(plan['objs'], env.objs), before):
        d = differs(state_of(o, x), b, 0, 0, zero=False)
        if d:
            out.append(['object %s' % o['t'], d])
    for what, x, s in live:
        d = differs(plain(x), s, 0, 0, zero=False)
        if d:
            out.append(['result of ' + what, d])
    return out


def _threaded(plan, extra):
    import random
    random.seed(plan.get('seed', 0))
    plane.reset()
    plane.active = True
    env = Env(plan['objs'])
    before = [state_of(o, x) for o, x in zip(plan['objs'], env.objs)]
    sim = sched.Sim(plan.get('faults', []) + plan.get('sched', []))
    trace, live = [], []
    ops, outs, states = collections.Counter(), collections.Counter(), set()

    def body(t):
        def f(s, tid):
            for i, c in enumerate(plan['threads'][t]):
                s.boundary(tid, i)
                r = outcome(run_call, env, c)
                ops[c['k']] += 1
                outs['%s:%s' % (c['k'], r[0] if r[0] == 'ok' else r[1])] += 1
                if r[0] == 'ok':
                    live.append(('call %d.%d' % (t, i), r[1], plain(r[1])))
                elif r[1] in ('Deadlock', 'StepLimit'):
                    return
                trace.append([t, i, s.hits['%d.%d' % (t, i)], _done(r)])
        return f
    sim.run_threads([body(t) for t in range(len(plan['threads']))], plan.get('order'))
    plane.active = False
    states.add(core.digest([x[:2] for x in trace]))
    return {'trace': trace, 'changed': _changed(plan, env, before, live), 'failure': sim.failure,
            'faults': dict(sim.fired), 'ops': ops, 'outcomes': outs, 'states': states, 'steps': sim.step,
            'inter': sim.interleaving(), 'extra_state': extra(env) if extra else None,
            'nontrivial': len(sim.switches) > 0}


def judge(plan, obs, refs, rtol=1e-7, atol=1e-12, more=None):
    """A call that was hit by an injected failure may still succeed; then its
    result must be right.  more(plan, call): names of further references."""
    out = []
    if obs.get('failure'):
        out.append(Violation(obs['failure'][0], obs['failure'][1]))
    for t, i, hit, r in obs['trace']:
        c = plan['threads'][t][i]
        if r[0] == 'err' and hit:
            continue
        ref = refs('call', *narrow(plan['objs'], c))
        if r[0] == 'ok':
            if ref[0] != 'ok':
                out.append(Violation('result-where-fresh-fails', 'call %d.%d %s returned %s; in a fresh process it raises %s: %s'
                                     % (t, i, json.dumps(c), str(r[1])[:200], ref[1], ref[2])))
                continue
            for name in more(plan, c) if more and not hit else ():
                x = refs(name, *narrow(plan['objs'], c))
                d = differs(ref[1], x[1], rtol, atol) if x[0] == 'ok' else 'raises %s: %s' % (x[1], x[2])
                if d:
                    out.append(Violation('parameters-' + name, 'call %d.%d %s: %s: %s' % (t, i, json.dumps(c), MORE[name], d)))
            d = differs(r[1], ref[1], rtol, atol)
            if d:
                out.append(Violation('wrong-after-history', 'call %d.%d %s%s differs from the same call in a fresh process: %s'
                                     % (t, i, json.dumps(c), ' (hit by an injected failure)' if hit else '', d)))
        elif ref[0] == 'ok':
            out.append(Violation('error-after-history', 'call %d.%d %s raises %s: %s; in a fresh process it works'
                                 % (t, i, json.dumps(c), r[1], r[2])))
        elif r[1] != ref[1]:
            out.append(Violation('other-error-after-history', 'call %d.%d %s raises %s: %s; in a fresh process %s: %s'
                                 % (t, i, json.dumps(c), r[1], r[2], ref[1], ref[2])))
    for what, d in obs['changed']:
        out.append(Violation('state-changed', '%s changed: %s' % (what, d)))
    return out


# ---------------------------------------------------------------------------
# generation helpers

def lines_of(example):
    """example: (objs, call), JSON-able; the call's lines are recorded once."""
    objs, c = example

    def make():
        env = Env(objs)
        return lambda: run_call(env, c)
    return work.lines_for([objs, c], make)


def lockstep(rng, lines, picks, prefer=()):
    """Switch decisions at some neighbouring lines in each of the calls
    (labels `picks`), so that they go through this stretch line by line in
    turns."""
    loc = work.pick_line(rng, lines, prefer)
    if not loc:
        return []
    f = loc[0].rsplit(':', 1)[0]
    here = sorted({int(l.rsplit(':', 1)[1]) for l, _ in lines if l.rsplit(':', 1)[0] == f})
    i = here.index(int(loc[0].rsplit(':', 1)[1]))
    if rng.random() < 0.6:
        # a stretch of code is a function or a block: small ones as often as big ones
        i = rng.choice([k for k, l in enumerate(here) if k == 0 or l - here[k - 1] > 3])
    i = max(0, i - rng.randint(0, 1))
    return [{'at': [lab, '%s:%d' % (f, l), n], 'do': 'switch', 'to': k + 1}
            for l in here[i:i + rng.randint(2, 7)] for k, lab in enumerate(picks) for n in ([1] if rng.random() < 0.7 else [1, 2])]


def add_switches(rng, plan, canon, n=None, prefer=()):
    """Switch decisions at random lines of random calls."""
    if rng.random() < 0.2:
        picks = [(t, rng.randrange(len(cs))) for t, cs in enumerate(plan['threads']) if cs]
        t, i = picks[0]
        plan['sched'] = dedup(lockstep(rng, lines_of(canon(plan, plan['threads'][t][i])), ['%d.%d' % x for x in picks], prefer))
        plan['order'] = rng.sample(range(len(plan['threads'])), len(plan['threads']))
        return
    sched_ = []
    n = n or rng.choice([1, 2, 3, 4, 6, 8])
    flat = [(t, i) for t, cs in enumerate(plan['threads']) for i in range(len(cs))]
    for _ in range(n):
        t, i = rng.choice(flat)
        c = plan['threads'][t][i]
        if rng.random() < 0.15:
            sched_.append({'at': ['%d.%d' % (t, i), 'boundary', 1], 'do': 'switch', 'to': rng.randrange(4)})
            continue
        loc = work.pick_line(rng, lines_of(canon(plan, c)), prefer)
        if loc:
            sched_.append({'at': ['%d.%d' % (t, i), loc[0], loc[1]], 'do': 'switch', 'to': rng.randrange(4)})
    plan['sched'] = dedup(sched_)
    plan['order'] = rng.sample(range(len(plan['threads'])), len(plan['threads']))


def dedup(fs):
    seen, out = set(), []
    for f in fs:
        k = tuple(f['at'])
        if k not in seen:
            seen.add(k)
            out.append(f)
    return out


def add_raises(rng, plan, canon, n=1, prefer=()):
    flat = [(t, i) for t, cs in enumerate(plan['threads']) for i in range(len(cs))]
    for _ in range(n):
        t, i = rng.choice(flat)
        c = plan['threads'][t][i]
        loc = work.pick_line(rng, lines_of(canon(plan, c)), prefer)
        if loc:
            plan['faults'].append({'op': i, 'at': ['%d.%d' % (t, i), loc[0], loc[1]], 'do': 'raise',
                                   'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})


def add_lib(rng, plan, choices, n=1, maxcall=4):
    """Library failures (sequential programs only)."""
    for _ in range(n):
        i = rng.randrange(len(plan['threads'][0]))
        lib, act = rng.choice(choices)
        plan['faults'].append({'op': i, 'lib': lib, 'act': act,
                               'call': 1 if rng.random() < 0.5 else rng.randint(1, maxcall)})


def fix_shrunk(plan, path, removed):
    """Calls were removed from a thread: move the addresses along."""
    if path[0] != 'threads':
        return plan
    t = path[1]
    rem = set(removed)

    def move(fs, lib=False):
        new = []
        for f in fs:
            f = dict(f)
            if 'at' in f:
                ft, fi = map(int, f['at'][0].split('.'))
            else:
                ft, fi = 0, f['op']
            if ft == t:
                if fi in rem:
                    continue
                fi -= sum(1 for r in rem if r < fi)
            if 'at' in f:
                f['at'] = ['%d.%d' % (ft, fi)] + f['at'][1:]
            if 'op' in f:
                f['op'] = fi
            new.append(f)
        return new
    plan['faults'] = move(plan.get('faults', []))
    if 'sched' in plan:
        plan['sched'] = move(plan['sched'])
    return plan
