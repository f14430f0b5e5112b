"""C01: one object, many match_run calls - never a stale or wrong result."""
import collections
import copy

from .. import core, work
from ..core import Violation, outcome
from ..work import World

ID = 'C01'
RUNS = {'quick': 420, 'thorough': 9000}
CAP = {'quick': 400, 'thorough': 1500}
RULE = ('A run is a random history on one or two Wilson objects: match_run to random targets, repeats, set_option, '
        'clear_cache, with KeyboardInterrupt/MemoryError at a chosen line and library failures at a chosen call. '
        'Non-trivial: at least two match_run calls returned and some call was preceded by other calls.')
REAL = work.REAL_ALL
STUBS = [work.STUB_DEFS]
ASSUMPTIONS = [work.ASSUME_DEFS, work.ASSUME_FORK,
               'Results are compared with relative tolerance 1e-7.']
STATES = 'distinct (options in force, targets asked since the last invalidation) after each operation'

SCALES = {'WET': [160.0, 91.1876, 80.0, 10.0, 5.0, 4.2], 'WET-4': [4.2, 4.0, 3.0, 2.0], 'WET-3': [2.0, 1.3, 1.5]}
OUT_SCALES = {'SMEFT': [500.0, 91.1876, 160.0, 2000.0], 'WET': [160.0, 91.1876, 10.0, 4.2, 4.5],
              'WET-4': [4.2, 4.0, 3.0, 2.0], 'WET-3': [2.0, 1.5, 1.0]}
BASES = {'WET': ['JMS', 'flavio', 'Bern'], 'WET-4': ['JMS', 'flavio', 'Bern'], 'WET-3': ['JMS', 'flavio']}
ORDER = ['SMEFT', 'WET', 'WET-4', 'WET-3']


def gen_point(rng, family=None):
    r = rng.random()
    fam = family or ('SMEFT' if r < 0.14 else 'WET' if r < 0.75 else 'WET-4' if r < 0.9 else 'WET-3')
    if fam == 'SMEFT':
        b = rng.choice(['Warsaw', 'Warsaw', 'Warsaw up'])
        return work.point(rng, 'SMEFT', b, rng.choice([1000.0, 3000.0, 91.1876, 160.0]))
    b = rng.choice(['JMS', 'flavio', 'JMS', 'Bern'] if fam != 'WET-3' else ['JMS', 'flavio'])
    return work.point(rng, fam, b, rng.choice(SCALES[fam]))


def gen_target(rng, spec):
    src = spec['eft']
    efts = ORDER[ORDER.index(src):]
    if rng.random() < 0.04:
        efts = ORDER                      # some calls that must fail
    eft = rng.choice(efts)
    if src == 'SMEFT' and eft == 'SMEFT':
        return {'scale': rng.choice(OUT_SCALES['SMEFT'] + [spec['scale']]), 'eft': 'SMEFT',
                'basis': rng.choice(['Warsaw', 'Warsaw up', 'Warsaw mass']), 'sectors': 'all'}
    basis = rng.choice(BASES.get(eft, ['Warsaw']))
    sectors = 'all'
    if eft != 'SMEFT' and rng.random() < 0.35:
        # sectors of the output EFT; the Bern/EOS translators do not accept a selection
        if basis != 'Bern':
            ss = work.eft_sectors(eft)
            sectors = rng.sample(ss, min(len(ss), rng.choice([1, 1, 2, 3])))
    scale = rng.choice(OUT_SCALES[eft] + ([spec['scale']] if eft == src else []))
    return {'scale': scale, 'eft': eft, 'basis': basis, 'sectors': sectors}


def related(rng, spec, t):
    """A target that differs from this one in one respect only: what is kept
    for one of them must not be used for the other."""
    t = dict(t)
    what = rng.choice(['basis', 'sectors', 'near', 'matching', 'eft'])
    if what == 'basis':
        if t['eft'] == 'SMEFT':
            t['basis'] = rng.choice(['Warsaw', 'Warsaw up', 'Warsaw mass'])
        else:
            t['basis'] = rng.choice(BASES[t['eft']])
            if t['basis'] == 'Bern':
                t['sectors'] = 'all'
    elif what == 'sectors' and t['eft'] != 'SMEFT' and t['basis'] != 'Bern':
        ss = work.eft_sectors(t['eft'])
        t['sectors'] = 'all' if t['sectors'] != 'all' and rng.random() < 0.4 else rng.sample(ss, min(len(ss), rng.choice([1, 2])))
    elif what == 'near':
        t['scale'] = t['scale'] * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-4.7, -2))
    elif what == 'matching' and t['eft'] != 'SMEFT':
        t['scale'] = rng.choice({'WET': [91.1876, 91.1876, 4.2], 'WET-4': [4.2, 1.3], 'WET-3': [1.3, 4.2]}[t['eft']])
        if rng.random() < 0.7:
            t['basis'] = 'JMS'
    elif what == 'eft':
        up = [e for e in ORDER[ORDER.index(spec['eft']):] if e != 'SMEFT' and t['basis'] in BASES[e]]
        if up and t['eft'] != 'SMEFT':
            t['eft'] = rng.choice(up)
            if t['sectors'] != 'all':
                ss = work.eft_sectors(t['eft'])
                t['sectors'] = [x for x in t['sectors'] if x in ss] or 'all'
    return t


def threshold_pair(rng, spec):
    """A target on the other side of a threshold and one at the threshold."""
    at = [('WET', 91.1876, 'SMEFT'), ('WET', 4.2, 'WET'), ('WET-4', 4.2, 'WET'), ('WET-4', 1.3, 'WET-4'), ('WET-3', 1.3, 'WET-4')]
    src = ORDER.index(spec['eft'])
    at = [x for x in at if ORDER.index(x[2]) >= src]
    if not at:
        return []
    eft, mu, up = rng.choice(at)
    below = ORDER[ORDER.index(up) + 1:]
    e1 = rng.choice(below)
    ss = work.eft_sectors(e1)
    sec = 'all' if rng.random() < 0.2 else rng.sample(ss, min(len(ss), rng.choice([1, 1, 2])))
    a = {'scale': rng.choice(OUT_SCALES[e1] + [mu]), 'eft': e1, 'basis': rng.choice(['JMS', 'flavio']), 'sectors': sec}
    ss = work.eft_sectors(eft)
    sec = 'all' if rng.random() < 0.7 else rng.sample(ss, min(len(ss), rng.choice([1, 2])))
    b = {'scale': mu, 'eft': eft, 'basis': rng.choice(['JMS', 'JMS', 'flavio']), 'sectors': sec}
    return [a, b] if rng.random() < 0.8 else [b, a]


def relevant(spec, t):
    """Options the way from the point to the target depends on."""
    a, b = ORDER.index(spec['eft']), ORDER.index(t['eft'])
    out = ['parameters', 'qed_order', 'qcd_order'] if b else ['parameters']
    if a == 0 < b:
        out += ['smeft_matchingscale', 'smeft_matching_order']
    if a <= 1 < b:
        out += ['mb_matchingscale'] * 2
    if a <= 2 < b:
        out += ['mc_matchingscale'] * 2
    return out


def generate(rng, i):
    n_inst = 2 if rng.random() < 0.4 else 1
    twin = False
    specs = [gen_point(rng)]
    if n_inst == 2:
        s2 = gen_point(rng, specs[0]['eft'])
        if rng.random() < 0.5:       # same place, other values
            s2['scale'] = specs[0]['scale']
        twin = rng.random() < 0.5
        if twin:
            s2 = work.sibling(rng, specs[0])
        specs.append(s2)
    accs = ['leadinglog'] if rng.random() < 0.8 else ['integrate', 'leadinglog']
    opts = {}
    ops = []
    n = rng.randint(3, 7)
    targets = [[gen_target(rng, s)] for s in specs]
    for k, s in enumerate(specs):
        for _ in range(rng.randint(0, 3)):
            t = rng.choice(targets[k])
            targets[k].append(related(rng, s, t) if rng.random() < 0.6 else gen_target(rng, s))
    if twin:
        targets[1] = targets[0]
    if specs[0]['eft'] == 'SMEFT':
        # most runs use the fast approximation from the start
        for k in range(n_inst):
            if accs == ['leadinglog']:
                ops.append({'op': 'set_option', 'w': k, 'key': 'smeft_accuracy', 'value': 'leadinglog'})
    for _ in range(n):
        k = rng.randrange(n_inst)
        r = rng.random()
        if r < 0.62:
            t = rng.choice(targets[k])
            if rng.random() < 0.15:
                t = gen_target(rng, specs[k])
            ops.append(dict(t, op='match_run', w=k))
        elif r < 0.9:
            t = rng.choice(targets[k])
            if rng.random() < 0.12:
                key, val = rng.choice(work.BAD_OPTIONS)
            else:
                key = rng.choice(list(work.OPTION_VALUES))
                if rng.random() < 0.6:
                    key = rng.choice(relevant(specs[k], t))
                val = rng.choice(work.OPTION_VALUES[key])
                if key == 'smeft_accuracy':
                    val = rng.choice(accs)
                if key == 'smeft_matching_order' and rng.random() < 0.7:
                    key, val = 'qcd_order', rng.choice([0, 1])
            ops.append({'op': 'set_option', 'w': k, 'key': key, 'value': val})
            if rng.random() < 0.5:
                ops.append(dict(t, op='match_run', w=k))
        else:
            ops.append({'op': 'clear_cache', 'w': k})
    if rng.random() < 0.25:
        # through one or two thresholds and then to one of them
        k = rng.randrange(n_inst)
        ops += [dict(t, op='match_run', w=k) for t in threshold_pair(rng, specs[k])]
    if rng.random() < 0.4:
        # an option goes back and forth, with the same target asked each time
        k = rng.randrange(n_inst)
        t = rng.choice(targets[k])
        key = rng.choice(relevant(specs[k], t))
        if key == 'smeft_matching_order' and rng.random() < 0.7:
            key = 'smeft_matchingscale'
        vals = rng.sample(work.OPTION_VALUES[key], min(2, len(work.OPTION_VALUES[key])))
        if rng.random() < 0.6 and work.DEFAULTS[key] != vals[0]:
            vals[1:] = [work.DEFAULTS[key]]
        at = rng.randint(0, len(ops))
        new = []
        for v in vals + vals[:1] * (rng.random() < 0.3):
            new += [{'op': 'set_option', 'w': k, 'key': key, 'value': v}, dict(t, op='match_run', w=k)]
        ops[at:at] = new
    if rng.random() < 0.2:
        # an object is dropped and another one is made, with the memory of the first one
        k = rng.randrange(n_inst)
        ops.insert(rng.randint(1, len(ops)), {'op': 'renew', 'w': k, 'spec': work.sibling(rng, specs[k]) if rng.random() < 0.7 else copy.deepcopy(specs[k])})
    # end with a repeat of an earlier target, so that stale entries show
    done = [o for o in ops if o['op'] == 'match_run']
    if done and twin:
        o = rng.choice(done)
        ops.append(dict(o, w=1 - o['w']))
    if done:
        ops.append(dict(rng.choice(done)))
    faults = []
    if rng.random() < 0.6:
        for _ in range(rng.choice([1, 1, 2])):
            j = rng.randrange(len(ops))
            f = gen_fault(rng, specs, ops, j)
            if f:
                faults.append(f)
    return {'specs': specs, 'ops': ops, 'faults': faults}


def gen_fault(rng, specs, ops, j):
    o = ops[j]
    spec = specs[o['w']]
    if o['op'] == 'match_run' and rng.random() < 0.4:
        lib, act = rng.choice(work.LIB_FAULTS)
        call = 1 if rng.random() < 0.5 else rng.randint(1, 12)
        return {'op': j, 'lib': lib, 'call': call, 'act': act}
    # the lines of an example of the same kind
    ex = dict(o, w=0)
    if o['op'] == 'renew':
        return None
    basis = 'Warsaw' if spec['eft'] == 'SMEFT' else 'JMS'
    if o['op'] == 'match_run':
        ex = {'op': 'match_run', 'w': 0, 'eft': o['eft'], 'basis': basis if o['eft'] == spec['eft'] else 'flavio',
              'scale': OUT_SCALES[o['eft']][-1], 'sectors': 'all'}
        if o['basis'] == 'Bern':
            ex['basis'] = 'Bern'
    ex_spec = work.point(core.rng_of('example'), spec['eft'], basis, {'SMEFT': 1000.0, 'WET': 160.0, 'WET-4': 4.2, 'WET-3': 2.0}[spec['eft']], 5)

    def make():
        ws = [_wil(ex_spec)]
        return lambda: run_op(ws, ex)
    loc = work.pick_line(rng, work.lines_for([ex_spec, ex], make))
    if not loc:
        return None
    return {'op': j, 'at': ['0.%d' % j, loc[0], loc[1]], 'do': 'raise',
            'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])}


def fix_shrunk(plan, path, removed):
    """Operations were removed: move the faults along."""
    if path != ('ops',):
        return plan
    rem = set(removed)
    new = []
    for f in plan['faults']:
        if f['op'] in rem:
            continue
        d = sum(1 for r in rem if r < f['op'])
        f = dict(f, op=f['op'] - d)
        if 'at' in f:
            f['at'] = ['0.%d' % f['op']] + f['at'][1:]
        new.append(f)
    plan['faults'] = new
    return plan


def _wil(spec):
    w = work.wilson_of(spec)
    w.set_option('smeft_accuracy', 'leadinglog')
    return w


def run_op(ws, o):
    w = ws[o['w']]
    if o['op'] == 'match_run':
        sec = o['sectors'] if o['sectors'] == 'all' else tuple(o['sectors'])
        return w.match_run(o['scale'], o['eft'], o['basis'], sectors=sec)
    if o['op'] == 'set_option':
        v = o['value']
        return w.set_option(o['key'], dict(v) if isinstance(v, dict) else v)
    if o['op'] == 'clear_cache':
        return w.clear_cache()
    if o['op'] == 'renew':
        del w
        ws[o['w']] = None
        ws[o['w']] = work.wilson_of(o['spec'])


def execute(plan):
    with World(plan) as world:
        ws = [work.wilson_of(s) for s in plan['specs']]
        trace, kept = [], []
        opsC, outC, states = collections.Counter(), collections.Counter(), set()
        asked = collections.defaultdict(list)
        now = list(plan['specs'])
        for i, o in enumerate(plan['ops']):
            if ws[o['w']] is None:
                continue                     # was not made
            pre = work.options_of(ws[o['w']])
            world.begin(i)
            r = outcome(run_op, ws, o)
            hit = world.fired()
            world.end()
            opsC[o['op']] += 1
            outC['%s:%s' % (o['op'], r[0] if r[0] == 'ok' else r[1])] += 1
            if o['op'] == 'renew':
                now[o['w']] = o['spec']
                asked[o['w']] = []
                if ws[o['w']] is None:
                    continue
            ent = {'op': o, 'hit': hit, 'pre': pre, 'post': work.options_of(ws[o['w']]), 'spec': now[o['w']]}
            if r[0] == 'ok' and o['op'] == 'match_run':
                ent['res'] = ('ok', work.snap(r[1]))
                kept.append((i, r[1], ent['res'][1]))
                asked[o['w']].append([o['scale'], o['eft'], o['basis'], o['sectors']])
            elif r[0] == 'ok':
                ent['res'] = ('ok', None)
                asked[o['w']] = []
            else:
                ent['res'] = r
            trace.append(ent)
            states.add(core.digest([o['w'], ent['post'], asked[o['w']]]))
        changed = []
        for i, wc, s in kept:
            d = work.close_snap(work.snap(wc), s, rtol=0, atol=0)
            if d:
                changed.append((i, d))
        for k, s in enumerate(now):
            if ws[k] is None:
                continue
            d = work.close_snap(work.snap(ws[k].wc), work.snap(work.wc_of(s)), rtol=0, atol=0)
            if d:
                changed.append(('input %d' % k, d))
    n_ok = sum(1 for e in trace if e['op']['op'] == 'match_run' and e['res'][0] == 'ok')
    return {'trace': [{k: e[k] for k in ('op', 'hit', 'res', 'post')} for e in trace], 'full': trace, 'changed': changed,
            'faults': world.faults(), 'ops': opsC, 'outcomes': outC, 'states': states,
            'steps': world.sim.step, 'nontrivial': n_ok >= 2}


def judge(plan, obs, refs):
    out = []
    for i, e in enumerate(obs['full']):
        o = e['op']
        if o['op'] != 'match_run':
            continue
        spec = e['spec']
        opt = e['pre']
        if opt != e['post']:
            out.append(Violation('options-changed-by-run', 'match_run number %d changed the options: %r -> %r' % (i, e['pre'], e['post'])))
        if e['res'][0] == 'err' and e['hit']:
            continue                                  # a failure that was injected
        ref = refs('pipeline', spec, opt, o['scale'], o['eft'], o['basis'], o['sectors'])
        if e['res'][0] == 'ok':
            if ref[0] != 'ok':
                out.append(Violation('result-where-fresh-fails', 'operation %d (%r) returned a result, a fresh computation raises %s: %s'
                                     % (i, o, ref[1], ref[2])))
                continue
            d = work.close_snap(e['res'][1], ref[1])
            if d:
                out.append(Violation('stale-or-wrong-result', 'operation %d %r with options %r differs from a fresh computation: %s'
                                     % (i, o, opt, d)))
        elif ref[0] == 'ok':
            out.append(Violation('error-where-fresh-works', 'operation %d %r raised %s: %s; a fresh computation works'
                                 % (i, o, e['res'][1], e['res'][2])))
    for what, d in obs['changed']:
        out.append(Violation('returned-object-changed', 'result/input %s changed later: %s' % (what, d)))
    return out


def reference(name, *a):
    return work.ref_pipeline(*a)
