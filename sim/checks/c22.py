"""C22: a checkpointed calculation restarted after crashes gives the direct
result."""
import collections
import io
import os
import random
import sys

from .. import calls, core, work
from ..core import Violation, outcome
from ..world import plane
from . import c01, c21

ID = 'C22'
RUNS = {'quick': 500, 'thorough': 24000}
CAP = {'quick': 400, 'thorough': 1600}
RULE = ('A run carries 1-2 calculations of 2-6 steps (run, translate, match, change of format, by the API or the command line tool) from checkpoint file to '
        'checkpoint file, in processes that are killed at chosen lines or bytes of a file, or fail with disk errors, and are started again from the last complete '
        'file; afterwards a process without faults finishes. Non-trivial: a process was lost and another one continued from a file.')
REAL = work.REAL_ALL + ['wilson/wcxf/cli.py', 'wilson/wcxf/converters/yamljson.py', 'pyyaml', 'json', 'rename and processes of the operating system']
STUBS = [work.STUB_DEFS, 'disk: a raw device with faults below the real io stacks']
ASSUMPTIONS = [work.ASSUME_DEFS, 'A step writes a temporary file, which is renamed when the step has ended without an error.',
               'The final file agrees with the same steps done in memory to 1e-9, and where the steps end at matching scales with one match_run.']
STATES = 'distinct (calculation, step, faults met so far) at the start of a process'
TIMEOUT = 260

OPT = [{}, {}, {}, {'parameters': {'Vcb': 0.04}}, {'qed_order': 0}, {'qcd_order': 0}, {'mb_matchingscale': 4.5}, {'parameters': {'m_b': 4.3, 'alpha_s': 0.12}}]


# --- plans -------------------------------------------------------------------

def gen_job(rng):
    if rng.random() < 0.3:
        return gen_split(rng)
    spec = c01.gen_point(rng)
    fine = rng.random() < 0.4                # scales with all digits
    if fine:
        spec['scale'] = digits(rng, spec['scale'])
    eft, basis, scale = spec['eft'], spec['basis'], spec['scale']
    steps = []
    for _ in range(rng.choice([2, 3, 3, 4, 5, 6])):
        ts = [t for e, b, l in c21.TR if (e, b) == (eft, basis) for t in l]
        ms = c21.MATCH.get((eft, basis), [])
        r = rng.random()
        s = {'fmt': rng.choice(['json', 'yaml'])}
        if r < 0.42 and eft != 'WET-2' and (eft == 'SMEFT' and basis in ('Warsaw', 'Warsaw up') or eft != 'SMEFT' and basis in ('JMS', 'flavio', 'Bern') and (eft, basis) != ('WET-3', 'Bern')):
            t = c01.gen_target(rng, {'eft': eft, 'basis': basis, 'scale': scale})
            while c01.ORDER.index(t['eft']) < c01.ORDER.index(eft):
                t = c01.gen_target(rng, {'eft': eft, 'basis': basis, 'scale': scale})
            if fine and t['scale'] != scale:
                t['scale'] = digits(rng, t['scale'])
            o = dict(rng.choice(OPT))
            if eft == 'SMEFT':
                o['smeft_accuracy'] = 'leadinglog'
            s.update(t, k='run', options=o)
            eft, basis, scale = t['eft'], t['basis'], t['scale']
        elif r < 0.66 and ts:
            b = rng.choice(ts)
            s.update(k='tr', to=b, via=rng.choice(['api', 'cli']))
            basis = b
        elif r < 0.82 and ms:
            e, b = rng.choice(ms)
            s.update(k='match', eft=e, basis=b, via=rng.choice(['api', 'cli']))
            eft, basis = e, b
        else:
            s.update(k='conv', via=rng.choice(['api', 'cli', 'wilson']))
        s['want'] = [eft, basis, scale]
        steps.append(s)
    return formats({'spec': spec, 'fmt': rng.choice(['json', 'yaml']), 'steps': steps})


def digits(rng, x):
    return x * (1 + rng.choice([1e-3, -1e-3, 1e-6, 1e-9]) * rng.random())


def formats(job):
    """wcxf convert reads one format and writes the other."""
    f = job['fmt']
    for s in job['steps']:
        if s['k'] == 'conv' and s['via'] == 'cli':
            s['fmt'] = 'yaml' if f == 'json' else 'json'
        f = s['fmt']
    return job


def gen_split(rng):
    """Cut at the scales where match_run itself changes the EFT."""
    chain = [('SMEFT', 'Warsaw', 91.1876), ('WET', 'JMS', 4.2), ('WET-4', 'JMS', 1.3)]
    a = rng.choice([0, 1, 1, 2])
    eft = ['SMEFT', 'WET', 'WET-4'][a]
    spec = work.point(rng, eft, 'Warsaw' if a == 0 else rng.choice(['JMS', 'flavio']), {'SMEFT': 1000.0, 'WET': rng.choice([160.0, 10.0]), 'WET-4': 4.2}[eft])
    b = rng.choice(range(a + 1, 4))
    final = {'eft': c01.ORDER[b], 'basis': 'JMS', 'scale': rng.choice(c01.OUT_SCALES[c01.ORDER[b]]), 'sectors': 'all'}
    opts = {'smeft_accuracy': 'leadinglog'}
    o = rng.choice([{}, {}, {'qed_order': 0}, {'qcd_order': 0}, {'smeft_matching_order': 1}])
    opts.update(o)
    steps = []
    for c in range(a, b):
        if b - a > 1 and c > a and rng.random() < 0.3:
            continue
        e, bs, sc = chain[c]
        steps.append({'k': 'run', 'eft': e, 'basis': bs, 'scale': sc, 'sectors': 'all', 'options': dict(opts), 'fmt': rng.choice(['json', 'yaml']), 'want': [e, bs, sc]})
        if rng.random() < 0.3:
            steps.append({'k': 'conv', 'via': rng.choice(['api', 'cli', 'wilson']), 'fmt': rng.choice(['json', 'yaml']), 'want': [e, bs, sc]})
    steps.append(dict(final, k='run', options=dict(opts), fmt=rng.choice(['json', 'yaml']), want=[final['eft'], final['basis'], final['scale']]))
    return formats({'spec': spec, 'fmt': rng.choice(['json', 'yaml']), 'steps': steps, 'direct': dict(final, options=opts)})


def generate(rng, i):
    jobs = [gen_job(rng) for _ in range(rng.choice([1, 1, 2]))]
    if len(jobs) == 2 and rng.random() < 0.5:
        # the same calculation for other values
        import copy
        jobs[1] = copy.deepcopy(jobs[0])
        s = jobs[0]['spec']
        jobs[1]['spec'] = work.point(rng, s['eft'], s['basis'], s['scale'])
    n = sum(len(j['steps']) for j in jobs)
    faults = []
    for p in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        k = rng.randrange(n) if p == 0 else rng.randrange(max(1, n - p))
        faults.append(gen_fault(rng, jobs, p, min(k, 4)))
    return {'jobs': jobs, 'faults': faults, 'retry': rng.choice([0, 0, 1, 2])}


def gen_fault(rng, jobs, p, k):
    """Process p meets a fault in its k-th step."""
    r = rng.random()
    f = {'proc': p, 'op': k}
    if r < 0.45:
        j = rng.choice(jobs)
        s = rng.choice(j['steps'])
        ex, spec = example(s)
        loc = work.pick_line(rng, work.lines_for(['c22', ex, spec], lambda: lambda: compute(ex, work.wc_of(spec))))
        if loc:
            f.update(at=['0.%d' % k, loc[0], loc[1]], do=rng.choice(['kill', 'kill', 'raise']), exc=rng.choice(['KeyboardInterrupt', 'MemoryError', 'OSError']))
            return f
    if r < 0.6:
        lib, act = rng.choice(work.LIB_FAULTS)
        f.update(lib=lib, call=rng.choice([1, 1, 2, 5]), act=act)
        return f
    x = rng.random()
    n = rng.choice([0, 1, 10, 100, rng.randrange(3000)])
    if x < 0.6:
        f['file'] = ['out', {'op': 'write', 'after': n, 'err': rng.choice(['kill', 'kill', 'ENOSPC', 'EIO'])}]
    elif x < 0.7:
        f['file'] = ['out', {'op': 'write', 'short': rng.choice([1, 7, 100])}]
    elif x < 0.8:
        f['file'] = ['out', {'op': rng.choice(['close', 'open']), 'err': rng.choice(['EIO', 'ENOSPC'])}]
    elif x < 0.9:
        f['file'] = ['in', {'op': 'read', 'after': n, 'err': rng.choice(['EIO', 'kill'])}]
    else:
        f['file'] = ['in', {'op': 'read', 'short': rng.choice([1, 7, 100])}]
    return f


def example(s):
    """A step of the same kind, for the lines it executes."""
    e, b, sc = s['want']
    if s['k'] == 'run':
        src = {'SMEFT': ('SMEFT', 'Warsaw', 1000.0), 'WET': ('WET', 'JMS', 160.0), 'WET-4': ('WET', 'JMS', 160.0), 'WET-3': ('WET', 'JMS', 160.0)}[e]
        ex = {'k': 'run', 'eft': e, 'basis': 'Warsaw' if e == 'SMEFT' else 'flavio', 'scale': c01.OUT_SCALES[e][-1], 'sectors': 'all', 'options': {'smeft_accuracy': 'leadinglog'}}
    elif s['k'] == 'match':
        ex = {'k': 'match', 'eft': 'WET-4', 'basis': 'JMS'}
        src = ('WET', 'JMS', 4.2)
    elif s['k'] == 'tr':
        ex = {'k': 'tr', 'to': 'Warsaw up' if e == 'SMEFT' else 'flavio'}
        src = ('SMEFT', 'Warsaw', 1000.0) if e == 'SMEFT' else ('WET', 'JMS', 160.0)
    else:
        ex, src = {'k': 'conv', 'fmt': s['fmt']}, ('WET', 'JMS', 160.0)
    return ex, work.point(core.rng_of('example', *src), src[0], src[1], src[2], 5)


# --- the calculation ---------------------------------------------------------

def compute(s, wc):
    """One step in memory."""
    import wilson
    if s['k'] == 'run':
        w = wilson.Wilson.from_wc(wc)
        for k, v in s['options'].items():
            w.set_option(k, dict(v) if isinstance(v, dict) else v)
        return w.match_run(s['scale'], s['eft'], s['basis'], sectors=s['sectors'] if s['sectors'] == 'all' else tuple(s['sectors']))
    if s['k'] == 'tr':
        return wc.translate(s['to'])
    if s['k'] == 'match':
        return wc.match(s['eft'], s['basis'])
    return wc


def step(sc, s, inp, out):
    """One step from file to file."""
    import wilson
    from wilson import wcxf
    via = s.get('via', 'api')
    if via == 'cli':
        from wilson.wcxf import cli
        argv = {'conv': ['convert', s['fmt']], 'tr': ['translate', s.get('to')], 'match': ['match', s.get('eft'), s.get('basis')]}[s['k']] + [inp]
        if s['k'] != 'conv':
            argv += ['--format', s['fmt']]
        old = sys.argv, sys.stderr
        sys.stderr = io.StringIO()
        sys.argv = ['wcxf'] + argv + ['--output', out]
        try:
            try:
                r = cli.wcxf_cli()
            except SystemExit as e:
                r = e.code
        finally:
            sys.argv, sys.stderr = old
        if r:
            raise RuntimeError('exit status %r' % (r,))
        return
    with open(inp) as f:
        if via == 'wilson':
            wc = wilson.Wilson.load_wc(f).wc
        elif s['k'] == 'run' and s['options'].get('qed_order') == 0:
            wc = wcxf.WC.load(f.read())
        else:
            wc = wcxf.WC.load(f)
    wc = compute(s, wc)
    if s['k'] == 'conv' and via == 'api' and s['fmt'] == 'yaml':
        t = wc.dump(fmt='yaml')
        with open(out, 'w') as f:
            f.write(t)
    else:
        with open(out, 'w') as f:
            wc.dump(f, fmt=s['fmt'])


def done(sc, j, job):
    """The last complete checkpoint of a calculation."""
    n = len(job['steps'])
    for k in range(n, -1, -1):
        if sc.get('%d.%d' % (j, k)) is not None:
            return k
    return -1


def process(plan, p, root, seed):
    """One process: goes on with whatever is left to do."""
    sc = work.Scratch()
    sc.dir = root
    faults = [f for f in plan['faults'] if f['proc'] == p]
    seen = []
    with work.World({'faults': [f for f in faults if 'at' in f or 'lib' in f], 'seed': seed}) as world:
        plane.roots = [root]
        i, fails, order = 0, 0, random.Random(seed)
        while True:
            todo = [(j, done(sc, j, job)) for j, job in enumerate(plan['jobs'])]
            todo = [(j, k) for j, k in todo if k < len(plan['jobs'][j]['steps'])]
            if not todo:
                return seen, world.faults(), world.sim.step
            j, k = order.choice(todo)
            job = plan['jobs'][j]
            out, tmp = sc.path('%d.%d' % (j, k + 1)), sc.path('%d.%d.part' % (j, k + 1))
            inp = sc.path('%d.%d' % (j, k))
            plane.files = {}
            for f in faults:
                if 'file' in f and f['op'] == i:
                    plane.files.setdefault(inp if f['file'][0] == 'in' else tmp, []).append(f['file'][1])
            world.begin(i)
            r = outcome(step, sc, job['steps'][k], inp, tmp)
            hit = world.fired()
            world.end()
            plane.files = {}
            i += 1
            seen.append([j, k, r[0] if r[0] == 'ok' else list(r), hit])
            if r[0] == 'ok':
                os.rename(tmp, out)
            else:
                fails += 1
                if fails > plan['retry'] or not hit:
                    return seen, world.faults(), world.sim.step


def execute(plan):
    from wilson import wcxf
    with work.Scratch() as sc:
        for j, job in enumerate(plan['jobs']):
            sc.put('%d.0' % j, work.wc_of(job['spec']).dump(fmt=job['fmt']))
        trace, nf, steps = [], collections.Counter(), 0
        states = set()
        n = max([f['proc'] for f in plan['faults']] + [-1]) + 1
        lost = resumed = 0
        for p in range(n + 1):
            at = [done(sc, j, job) for j, job in enumerate(plan['jobs'])]
            states.add(core.digest([[job['steps'][:k] for job, k in zip(plan['jobs'], at)], [f for f in plan['faults'] if f['proc'] < p]]))
            st = core.fork_call(process, plan, p, sc.dir, p, timeout=200)
            if st[0] == 'ok':
                trace.append([p, at, st[1][0]])
                nf.update(st[1][1])
                steps += st[1][2]
                ended = any(x[2] != 'ok' for x in st[1][0])
            else:
                trace.append([p, at, [st[0], str(st[1])[-400:]]])
                if st[0] == 'died':
                    nf['process:killed'] += 1
                ended = True
            lost += ended
            resumed += bool(lost and any(at))
        final = [done(sc, j, job) for j, job in enumerate(plan['jobs'])]
        files = []
        for j, job in enumerate(plan['jobs']):
            for k in range(1, final[j] + 1):
                with open(sc.path('%d.%d' % (j, k))) as f:
                    r = outcome(wcxf.WC.load, f)
                files.append([j, k, ('ok', work.snap(r[1])) if r[0] == 'ok' else r])
    ops, outC = collections.Counter(), collections.Counter()
    for p, at, t in trace:
        if t and isinstance(t[0], str):
            outC['process ' + t[0]] += 1
            continue
        for j, k, r, hit in t:
            s = plan['jobs'][j]['steps'][k]
            ops[s['k'] + '-' + s.get('via', 'api')] += 1
            outC[r if r == 'ok' else r[1]] += 1
    return {'trace': [trace, final, files], 'faults': dict(nf), 'ops': ops, 'outcomes': outC, 'states': states, 'steps': steps,
            'nontrivial': bool(lost and resumed)}


# --- judging -----------------------------------------------------------------

def judge(plan, obs, refs):
    out = []
    trace, final, files = obs['trace']
    for p, at, t in trace:
        if t and isinstance(t[0], str):
            if t[0] != 'died' or not any(f['proc'] == p and (f.get('do') == 'kill' or 'file' in f and f['file'][1].get('err') == 'kill') for f in plan['faults']):
                out.append(Violation('process-died', 'process %d: %s' % (p, t)))
            continue
        for j, k, r, hit in t:
            s = plan['jobs'][j]['steps'][k]
            if r != 'ok' and not hit:
                ref = refs('job', plan['jobs'][j]['spec'], plan['jobs'][j]['steps'][:k + 1])
                if ref[0][0] == 'ok':
                    out.append(Violation('step-fails', 'process %d: step %d of calculation %d %r fails without a fault: %s' % (p, k, j, s, r)))
    for j, k, r in files:
        job = plan['jobs'][j]
        s = job['steps'][k - 1]
        what = 'calculation %d after step %d %r' % (j, k, s)
        ref = refs('job', job['spec'], job['steps'][:k])
        if r[0] != 'ok':
            out.append(Violation('file-unreadable', '%s: %s' % (what, r)))
        elif ref[0][0] != 'ok':
            out.append(Violation('result-where-direct-fails', '%s: the file has a result, directly: %s' % (what, ref[0])))
        else:
            x = r[1]
            if [x['eft'], x['basis']] != s['want'][:2] or abs(x['scale'] - s['want'][2]) > 1e-14 * s['want'][2]:
                out.append(Violation('wrong-header', '%s: the file says %s' % (what, [x['eft'], x['basis'], x['scale']])))
            d = work.close_snap(x, ref[0][1], rtol=1e-9, atol=1e-13)
            if d:
                out.append(Violation('result-differs', '%s: the file differs from the calculation in memory: %s' % (what, d)))
    for j, job in enumerate(plan['jobs']):
        n = len(job['steps'])
        if final[j] < n:
            ref = refs('job', job['spec'], job['steps'])
            if ref[0][0] == 'ok' and not out and all(final[i] == len(plan['jobs'][i]['steps']) or i == j for i in range(len(plan['jobs']))):
                out.append(Violation('no-progress', 'calculation %d ends after step %d of %d: %r' % (j, final[j], n, trace[-1])))
        elif 'direct' in job:
            d = job['direct']
            ref = refs('direct', job['spec'], d['options'], d['scale'], d['eft'], d['basis'])
            last = [r for a, k, r in files if (a, k) == (j, n)][0]
            if ref[0] == 'ok' and last[0] == 'ok':
                # what comes from cancellations is small compared to the input
                x, y = [dict(a, values=dict(a['values'], input=ref[2])) for a in (last[1], ref[1])]
                e = work.close_snap(x, y, rtol=1e-6, atol=1e-7)
                if e:
                    out.append(Violation('differs-from-direct', 'calculation %d in steps %r differs from match_run in one go: %s'
                                         % (j, [s['want'] for s in job['steps']], e)))
    return out


def in_memory(spec, steps):
    wc = work.wc_of(spec)
    for s in steps:
        wc = compute(s, wc)
    return wc


def reference(name, *a):
    if name == 'job':
        r = outcome(in_memory, *a)
        return [('ok', work.snap(r[1])) if r[0] == 'ok' else r]
    spec, opt, scale, eft, basis = a
    r = work.ref_pipeline(spec, opt, scale, eft, basis, 'all')
    wc = work.wc_of(spec)
    wc = wc if wc.basis in ('JMS', 'Warsaw') else wc.translate('JMS')
    return r if r[0] != 'ok' else r + (max(abs(x) for x in wc.dict.values()),)


def shrink_paths(plan):
    return [('faults',)] + ([('jobs',)] if len(plan['jobs']) > 1 else []) + [('jobs', j, 'steps') for j in range(len(plan['jobs']))]


def fix_shrunk(plan, path, removed):
    if path == ('jobs',) and not plan['jobs']:
        return None
    if path and path[0] == 'jobs' and len(path) == 3:
        # only the last steps can go
        j = plan['jobs'][path[1]]
        n = len(j['steps'])
        if not n or set(removed) != set(range(n, n + len(removed))):
            return None
        j.pop('direct', None)
    return plan
