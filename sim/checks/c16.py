"""C16: DsixTools conversion round-trips through files and keeps no state."""
import copy
import json

from .. import calls, core, work
from ..calls import kind
from ..core import Violation
from ..world import plane
from . import c11, c12

ID = 'C16'
RUNS = {'quick': 900, 'thorough': 30000}
CAP = {'quick': 300, 'thorough': 1300}
RULE = ('A run converts 1-6 times between WCxf and DsixTools, with the functions and with one or two SMEFTio objects that are used again, files written by '
        'the package and by the harness, blocks in any order over one to four files on a simulated disk with short transfers, errors, interruptions and cut '
        'files, interruptions at a chosen line, failing allocations, and up to three threads. The oracle is the list of coefficients each file '
        'was made from and a small model of SMEFTio. Non-trivial: two calls returned (sequential) or a switch happened (threads).')
REAL = ['wilson/wcxf/converters/dsixtools.py', 'wilson/util/smeftutil.py', 'wilson/wcxf/classes.py', 'pylha', 'numpy', 'pyyaml']
STUBS = ['disk: a raw device with faults below the real io stacks', work.STUB_DEFS]
ASSUMPTIONS = [work.ASSUME_DEFS, 'A cut DsixTools file may be complete by accident; it is judged by the blocks left in it.']
STATES = 'distinct windows of four calls (kind, outcome, hit); completion orders for threads'

FILES = ('wilson/wcxf/converters/dsixtools.py', 'wilson/util/smeftutil.py', 'wilson/wcxf/classes.py')
NAMES = {'G': ('WC1', 1), 'Gtilde': ('WC1', 2), 'W': ('WC1', 3), 'Wtilde': ('WC1', 4), 'phi': ('WC2', 1), 'phiBox': ('WC3', 1), 'phiD': ('WC3', 2),
         'phiG': ('WC4', 1), 'phiB': ('WC4', 2), 'phiW': ('WC4', 3), 'phiWB': ('WC4', 4), 'phiGtilde': ('WC4', 5), 'phiBtilde': ('WC4', 6),
         'phiWtilde': ('WC4', 7), 'phiWtildeB': ('WC4', 8)}
SM = {'GAUGE': [[1, 0.6488], [2, 0.3578], [3, 1.0616]], 'SCALAR': [[1, 0.2813], [2, 8528.0]],
      'GU': [[1, 1, 7.0e-06], [2, 2, 0.0029], [3, 3, 0.86], [1, 2, 0.0008]], 'IMGU': [[1, 3, 0.003], [2, 1, -2e-05]], 'GD': [[1, 1, 1.4e-05], [2, 2, 0.00028], [3, 3, 0.0138]],
      'IMGD': [[1, 2, 3e-06]], 'GE': [[1, 1, 2.8e-06], [2, 2, 0.0006], [3, 3, 0.01]], 'IMGE': [[3, 1, 1e-07]], 'THETA': [[1, 0.1], [2, 0.0], [3, 1e-11]]}
REQUIRED = ['GAUGE', 'SCALAR', 'GU', 'GD', 'GE', 'SCALES']


def num(v):
    return complex(*v) if isinstance(v, list) else v


def blocks_of(spec, high=None):
    """The blocks a DsixTools file of these coefficients has."""
    high = high or spec['scale']
    b = {'SCALES': [[1, high]]}
    for k, v in spec['values'].items():
        v = complex(num(v))
        if '_' in k:
            op, idx = k.rsplit('_', 1)
            f = high if op == 'llphiphi' else high ** 2
            if v.real:
                b.setdefault('WC' + op.upper(), []).append([int(c) for c in idx] + [v.real * f])
            if v.imag:
                b.setdefault('IMWC' + op.upper(), []).append([int(c) for c in idx] + [v.imag * f])
        elif v.real:
            b.setdefault(NAMES[k][0], []).append([NAMES[k][1], v.real * high ** 2])
    return b


def text_of(names, b):
    return ''.join('BLOCK %s\n' % n + ''.join('    ' + '    '.join(x if isinstance(x, str) else repr(x) for x in r) + '\n' for r in b[n]) for n in names)


def parse(text):
    """An own reader of DsixTools files."""
    out, cur = {}, None
    for line in text.splitlines():
        w = line.split('#')[0].split()
        if not w:
            continue
        if w[0].upper() == 'BLOCK':
            cur = out.setdefault(w[1].upper(), {})
        else:
            cur[tuple(int(float(x)) for x in w[:-1])] = float(w[-1])
    return out


def table(b):
    return {k: {tuple(r[:-1]): float(r[-1]) for r in v} for k, v in b.items()}


def files_of(c):
    return [text_of(ns, c['blocks']) for ns in c['files']]


# --- calls -----------------------------------------------------------------

_scratch = [None]


def streams(c):
    """The files of a call, as strings or open files on the simulated disk."""
    ts = files_of(c)
    if c.get('via') != 'disk':
        return tuple(ts)
    sc = _scratch[0]
    out = []
    for n, t in enumerate(ts):
        sc.put('in%d' % n, t)
        out.append(c12.device(sc, 'in%d' % n, 'r', c.get('rf', []) if n == c.get('rfile', 0) % len(ts) else []))
    return tuple(out)


def to_stream(c, f):
    """f(stream) -> text that arrived."""
    if c.get('out') != 'disk':
        return f(None)
    sc = _scratch[0]
    s = c12.device(sc, 'out', 'w', c.get('wf', []))
    try:
        f(s)
        s.close()
    finally:
        try:
            s.close()
        except Exception:
            pass
    return sc.get('out').decode()


@kind('w2d')
def _w2d(env, c):
    from wilson.wcxf.converters import dsixtools
    return to_stream(c, lambda s: dsixtools.wcxf2dsixtools(env[c['o']], stream=s))


@kind('d2w')
def _d2w(env, c):
    from wilson.wcxf.converters import dsixtools
    return to_stream(c, lambda s: dsixtools.dsixtools2wcxf(streams(c), stream=s))


@kind('io_load')
def _io_load(env, c):
    io = env[c['io']]
    io.load_initial(streams(c))
    C = io.C_in
    return {k: [[complex(y) for y in x] for x in C[k]] if k in ('Gu', 'Gd', 'Ge') else complex(C[k]) for k in SMPAR if k in C}


@kind('io_set')
def _io_set(env, c):
    env[c['io']].set_initial_wcxf(env[c['o']], **({'scale_high': c['high']} if c.get('high') else {}))


@kind('io_load_wcxf')
def _io_load_wcxf(env, c):
    env[c['io']].load_wcxf(env[c['o']].dump())


@kind('io_dump')
def _io_dump(env, c):
    io = env[c['io']]
    return to_stream(c, lambda s: io.dump(io.C_in, scale_out=c.get('scale_out'), stream=s))


@kind('io_get')
def _io_get(env, c):
    io = env[c['io']]
    return io.get_wcxf(io.C_in, io.scale_in)


@kind('io_dump_wcxf')
def _io_dump_wcxf(env, c):
    io = env[c['io']]
    return to_stream(c, lambda s: io.dump_wcxf(io.C_in, io.scale_in, fmt=c['fmt'], stream=s))


# --- plans -----------------------------------------------------------------

SCALES = [1000.0, 500.0, 2000.0, 91.1876, 10000.0]


def gen_spec(rng, scale=None):
    n = rng.choice([1, 2, 4, 8, 30])
    return work.point(rng, 'SMEFT', 'Warsaw', scale or rng.choice(SCALES), n, like=rng.choice([None, None, 'phi', 'll', 'qq', 'ee', 'G', 'uu', 'llphiphi']))


# rows that are no entry of their block
BADROWS = [('WC1', '1 2 0.1'), ('WC1', '1 x'), ('WC1', '1'), ('WCLL', '1 1 1 4 0.5'), ('WCLL', '1 1 1 x 0.5'), ('WCLL', '1 1 1 1 x'), ('WCLL', '1 1 1 1 1 0.5'),
           ('WCUPHI', '1 4 0.5'), ('WCUPHI', '1 1 x'), ('IMWCUPHI', '1 1 1 0.4'), ('IMWCLL', '5 1 1 1 0.4')]


def gen_files(rng, c, spec, disk):
    b = blocks_of(spec)
    c['spec'] = spec
    b.update(SM)
    for n in ('IMGU', 'IMGD', 'IMGE', 'THETA'):
        if rng.random() < 0.4:
            del b[n]
    if rng.random() < 0.12:
        del b[rng.choice(REQUIRED)]
    if rng.random() < 0.08:
        n, row = rng.choice(BADROWS)
        rows = b.setdefault(n, [])
        c['bad'] = [n, row]
        rows.append(row.split())
    names = list(b)
    rng.shuffle(names)
    k = min(rng.choice([1, 1, 2, 2, 3, 4]), len(names))
    cut = sorted(rng.sample(range(1, len(names)), k - 1))
    c['blocks'] = b
    c['files'] = [names[i:j] for i, j in zip([0] + cut, cut + [len(names)])]
    if rng.random() < 0.04:
        c['files'].append([])                  # an empty file
    if disk:
        c['via'] = rng.choice(['disk', 'disk', 'string'])
        if c['via'] == 'disk' and rng.random() < 0.4:
            c['rfile'] = rng.randrange(4)
            size = len(text_of(c['files'][c['rfile'] % len(c['files'])], b))
            c['rf'] = [f for f in [c11.gen_fault(rng, 'read', size)] if f['op'] == 'read']


def gen_call(rng, objs, wcs, ios, disk):
    r = rng.random()
    if r < 0.3:
        c = {'k': 'd2w'}
        gen_files(rng, c, gen_spec(rng), disk)
    elif r < 0.55 or not ios:
        c = {'k': 'w2d', 'o': rng.choice(wcs)}
    else:
        c = {'io': rng.choice(ios)}
        r = rng.random()
        if r < 0.25:
            c['k'] = 'io_load'
            gen_files(rng, c, gen_spec(rng), disk)
        elif r < 0.5:
            c.update(k='io_set', o=rng.choice(wcs))
            if rng.random() < 0.3:
                c['high'] = rng.choice(SCALES)
        elif r < 0.58:
            c.update(k='io_load_wcxf', o=rng.choice(wcs))
        elif r < 0.75:
            c['k'] = 'io_dump'
            if rng.random() < 0.3:
                c['scale_out'] = rng.choice(SCALES)
        elif r < 0.9:
            c['k'] = 'io_get'
        else:
            c.update(k='io_dump_wcxf', fmt=rng.choice(['yaml', 'json']))
    if disk and c['k'] in ('d2w', 'w2d', 'io_dump', 'io_dump_wcxf') and rng.random() < 0.5:
        c['out'] = 'disk'
        if rng.random() < 0.5:
            c['wf'] = [f for f in [c11.gen_fault(rng, 'write', rng.choice([10, 200, 3000]))] if f['op'] in ('write', 'close')]
    return c


def canon(plan, c):
    r = core.rng_of('example-dsix')
    objs = [{'t': 'wc', 'spec': gen_spec(r, 1000.0)}, {'t': 'io'}]
    d = {k: v for k, v in c.items() if k in ('k', 'fmt', 'high')}
    if 'o' in c:
        d['o'] = 0
    if 'files' in c:
        b = dict(blocks_of(objs[0]['spec']), **SM)
        d.update(spec=objs[0]['spec'], blocks=b, files=[list(b)])
    if 'io' in c:
        d['io'] = 1
        if c['k'] in ('io_dump', 'io_get', 'io_dump_wcxf'):
            d['k'], d['o'] = 'w2d', 0            # (no loaded object at hand)
    return objs, d


BAD = [{'eft': 'WET', 'basis': 'JMS', 'scale': 91.1876, 'values': {}}, {'eft': 'SMEFT', 'basis': 'Warsaw up', 'scale': 500.0, 'values': {}},
       {'eft': 'SMEFT', 'basis': 'Warsaw', 'scale': 777.0, 'values': {'lq1_1177': 1e-8, 'phiBox': 1e-8}}]


def generate(rng, i):
    objs = [{'t': 'wc', 'spec': gen_spec(rng)} for _ in range(rng.choice([1, 2, 2]))]
    if rng.random() < 0.2:
        objs.append({'t': 'wc', 'spec': work.sibling(rng, objs[0]['spec'])})
    if rng.random() < 0.2:
        objs.append({'t': 'wc', 'spec': copy.deepcopy(rng.choice(BAD))})
    wcs = list(range(len(objs)))
    nt = 1 if rng.random() < 0.7 else rng.choice([2, 3])
    ios = []
    if nt == 1:
        for _ in range(rng.choice([0, 1, 1, 2])):
            objs.append({'t': 'io'})
            ios.append(len(objs) - 1)
    n = rng.choice([1, 2, 4, 6]) if nt == 1 else rng.choice([1, 2])
    pool = [gen_call(rng, objs, wcs, ios, nt == 1) for _ in range(n + 2)]
    plan = {'objs': objs, 'threads': [[rng.choice(pool) for _ in range(n)] for _ in range(nt)], 'faults': []}
    if nt > 1:
        calls.add_switches(rng, plan, canon, prefer=FILES)
        if rng.random() < 0.3:
            calls.add_raises(rng, plan, canon, prefer=FILES)
        return plan
    t = plan['threads'][0]
    for j in ios:                                # look at what the objects hold in the end
        t.append({'k': 'io_get', 'io': j})
        if rng.random() < 0.3:
            t.append({'k': 'io_dump', 'io': j})
    if rng.random() < 0.5:
        calls.add_raises(rng, plan, canon, 1, prefer=FILES[:1])
    if rng.random() < 0.15:
        calls.add_lib(rng, plan, [('einsum', 'MemoryError')], 1, 5)
    return plan


def execute(plan):
    with work.Scratch() as sc:
        _scratch[0] = sc
        return calls.execute(plan)


# --- judge -----------------------------------------------------------------

def bad_wc(plan, c):
    s = plan['objs'][c['o']]['spec']
    return s['eft'] != 'SMEFT' or s['basis'] != 'Warsaw' or 'lq1_1177' in s['values']


def missing(c):
    """Required blocks that are not in the files (after cutting)."""
    have = set()
    torn = [f['torn'] for f in c.get('rf', []) if 'torn' in f] if c.get('via') == 'disk' else []
    for n, t in enumerate(files_of(c)):
        if torn and n == c['rfile'] % len(c['files']):
            t = t.encode()[:min(torn)].decode()
        p = parse_names(t)
        if 'BLOCK' not in t:
            return ['any block in file %d' % n]
        have |= p
    return [r for r in REQUIRED if r not in have]


def parse_names(t):
    """Blocks of which at least the name is there."""
    return {l.split()[1] for l in t.split('\n') if l.startswith('BLOCK ') and len(l) > 6}


def torn(c):
    return c.get('via') == 'disk' and any('torn' in f for f in c.get('rf', []))


def close(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def near_table(a, b):
    for k in set(a) | set(b):
        x = {i: v for i, v in a.get(k, {}).items() if v}
        y = {i: v for i, v in b.get(k, {}).items() if v}
        if set(x) != set(y):
            return 'block %s has the elements %s instead of %s' % (k, sorted(x)[:5], sorted(y)[:5])
        for i in x:
            if not close(x[i], y[i]):
                return 'block %s%s is %r instead of %r' % (k, list(i), x[i], y[i])


def near_wc(r, spec):
    """r: {'eft', 'basis', 'scale', 'values'} with numbers."""
    if (r['eft'], r['basis']) != ('SMEFT', 'Warsaw'):
        return 'it is in %s %s' % (r['eft'], r['basis'])
    if not close(r['scale'], spec['scale']):
        return 'the scale is %r instead of %r' % (r['scale'], spec['scale'])
    want = {k: complex(num(v)) for k, v in spec['values'].items() if num(v)}
    got = {k: complex(v) for k, v in r['values'].items() if v}
    if set(want) != set(got):
        return 'the coefficients are %s instead of %s' % (sorted(set(got) - set(want))[:4] or sorted(got)[:4], sorted(set(want) - set(got))[:4] or sorted(want)[:4])
    for k in want:
        if abs(want[k] - got[k]) > 1e-9 * abs(want[k]):
            return '%s is %r instead of %r' % (k, got[k], want[k])


SMPAR = ['g', 'gp', 'gs', 'Lambda', 'm2', 'Gu', 'Gd', 'Ge', 'Theta', 'Thetap', 'Thetas']


def near_sm(got, c):
    """The Standard Model parameters are those of the files."""
    names = [n for f in c['files'] for n in f]
    b = {n: {tuple(r[:-1]): r[-1] for r in c['blocks'][n]} for n in names}
    want = {'g': b['GAUGE'][1,], 'gp': b['GAUGE'][2,], 'gs': b['GAUGE'][3,], 'Lambda': b['SCALAR'][1,], 'm2': b['SCALAR'][2,]}
    for i, k in enumerate(['Theta', 'Thetap', 'Thetas']):
        want[k] = b.get('THETA', {}).get((i + 1,), 0)
    for k in 'Gu', 'Gd', 'Ge':
        re, im = b[k.upper()], b.get('IM' + k.upper(), {})
        want[k] = [[complex(re.get((i, j), 0), im.get((i, j), 0)) for j in (1, 2, 3)] for i in (1, 2, 3)]
    for k in want:
        if k not in got:
            if 'Theta' in k:
                continue                     # SMEFTio does not keep the angles
            return 'the parameter %s is missing' % k
        x, y = [sum(v, []) if isinstance(v, list) else [v] for v in (want[k], got[k])]
        if not all(close(p.real, q.real) and close(p.imag, q.imag) for p, q in zip(x, y)):
            return '%s is %r instead of %r' % (k, got[k], want[k])


def wc_text(t):
    import yaml
    d = yaml.safe_load(t)
    d['values'] = {k: complex(float(v['Re']), float(v['Im'])) if isinstance(v, dict) else float(v) for k, v in d['values'].items()}
    d['scale'] = float(d['scale'])
    return d


def judge(plan, obs, refs):
    out = []
    if obs.get('failure'):
        out.append(Violation(obs['failure'][0], obs['failure'][1]))
    for what, d in obs['changed']:
        out.append(Violation('state-changed', '%s changed: %s' % (what, d)))
    io = {j: {'spec': None, 'high': None} for j, o in enumerate(plan['objs']) if o['t'] == 'io'}
    for t, i, hit, r in obs['trace']:
        c = plan['threads'][t][i]
        k = c['k']
        what = 'call %d.%d %s' % (t, i, json.dumps({a: b for a, b in c.items() if a not in ('blocks', 'spec')}))
        st = io.get(c.get('io'))
        if st and st.get('unsure'):
            if not (k in ('io_load',) and r[0] == 'ok'):
                continue
        must, spec, high = None, None, None
        if 'files' in c:
            m = missing(c)
            must = 'blocks are missing (%s)' % ', '.join(m) if m else None
            if not m and 'bad' in c and any(c['bad'][0] in f for f in c['files']) and c['bad'][1].split() in c['blocks'][c['bad'][0]] and not torn(c):
                must = 'block %s has the row %r' % tuple(c['bad'])
            spec = c['spec']
        elif 'o' in c:
            must = 'the coefficients are no valid Warsaw coefficients' if bad_wc(plan, c) else None
            spec = plan['objs'][c['o']]['spec']
        elif st:
            spec, high = st['spec'], st['high']
            must = 'nothing was loaded' if spec is None else None
        if r[0] == 'err':
            if not hit and not must and not torn(c):
                out.append(Violation('needless-error', '%s raises %s: %s' % (what, r[1], r[2])))
            # an object keeps what it had: judged by the calls that follow
            continue
        if must:
            out.append(Violation('accepted', '%s succeeds although %s' % (what, must)))
            if st:
                st['unsure'] = True
            continue
        if torn(c):
            if st:
                st['unsure'] = True              # what was left may be valid
            continue
        d = None
        if k in ('d2w', 'io_dump_wcxf'):
            try:
                d = near_wc(wc_text(r[1]), spec)
            except Exception as e:
                d = 'it is no WCxf file: %s' % str(e)[:200]
        elif k == 'io_get':
            x = r[1]
            d = near_wc({'eft': x['eft'], 'basis': x['basis'], 'scale': x['scale'], 'values': x['values']}, spec)
        elif k in ('w2d', 'io_dump'):
            want = table(blocks_of(spec, high))
            if c.get('scale_out'):
                want['SCALES'][(2,)] = c['scale_out']
            try:
                d = near_table(parse(r[1]), want)
            except Exception as e:
                d = 'it is no DsixTools file: %s' % str(e)[:200]
        elif k == 'io_load':
            d = near_sm(r[1], c)
            st.update(spec=spec, high=spec['scale'], unsure=False)
        elif k in ('io_set', 'io_load_wcxf'):
            st.update(spec=spec, high=c.get('high') or st['high'] or spec['scale'])
        if d:
            out.append(Violation('wrong-conversion', '%s%s: %s' % (what, ' (hit by an injected failure)' if hit else '', d)))
    return out


def fix_shrunk(plan, path, removed):
    return calls.fix_shrunk(plan, path, removed)
