"""C11: WCxf files survive any stream: complete data or an error."""
import collections
import copy
import io
import json
import math

from .. import core, work
from ..core import Violation, outcome
from ..work import World
from ..world import plane

ID = 'C11'
RUNS = {'quick': 3000, 'thorough': 150000}
CAP = {'quick': 300, 'thorough': 1200}
RULE = ('A run writes and reads 1-6 EFT, Basis and WC objects as JSON/YAML through strings, text and binary files on a simulated disk, converting between the '
        'formats, with short transfers, errors and interruptions at a chosen byte of reading, writing or closing, torn files, files ending with the rest of an older one, crashes while writing, '
        'and exceptions at a chosen line. Non-trivial: a file was both written and read.')
REAL = ['wilson/wcxf/classes.py', 'wilson/wcxf/converters/yamljson.py', 'wilson/classes.py', 'pyyaml', 'json']
STUBS = ['disk: a raw device with faults below the real io stacks']
ASSUMPTIONS = ['A crash leaves a prefix of what was written.', 'A cut YAML file may be valid YAML; nothing is claimed for it.']
STATES = 'distinct (object kind, format, stream, fault) combinations'

FLOATS = [0.0, -0.0, 1.0, -1.5, 1e-5, 1e-7, 1.2345678901234567e-8, 1e300, -1e-300, 5e-324, 0.1, 1 / 3, 2.0 ** 53, 1e16, 1e22, 123456789.123456789]
TEXTS = ['plain', 'with: colon', '# hash', "quote ' and \" mark", 'ümläut \u2192 \u03b1', 'line\nbreak', '', 'yes', '1e-3', '0x10', ' leading', '- item', '{a: b}', 'null',
         'tab\there', '$\\bar s \\gamma_\\mu P_L b$', '~', '%TAG', '\U0001f600']


def gen_val(rng):
    x = rng.choice(FLOATS) if rng.random() < 0.5 else rng.uniform(-1, 1) * 10.0 ** rng.randint(-20, 20)
    r = rng.random()
    if r < 0.55:
        return x
    if r < 0.65:
        return rng.choice([0, 1, -7, 10 ** 18])
    return {'Re': x, 'Im': rng.choice(FLOATS)}


def gen_meta(rng, depth=0):
    r = rng.random()
    if r < 0.5 or depth > 2:
        return rng.choice(TEXTS)
    if r < 0.6:
        return rng.choice([None, True, False, 3, 2.5])
    if r < 0.8:
        return {('k%d' % j if rng.random() < 0.8 else rng.choice(TEXTS)): gen_meta(rng, depth + 1) for j in range(rng.randint(0, 3))}
    return [gen_meta(rng, depth + 1) for _ in range(rng.randint(0, 3))]


def gen_obj(rng):
    r = rng.random()
    if r < 0.6:
        d = {'eft': rng.choice(['WET', 'SMEFT', 'E1']), 'basis': rng.choice(['flavio', 'B1', 'Warsaw mass']),
             'scale': rng.choice([91.1876, 1000.0, 4.2, 1e-3]),
             'values': {'c_%s_%d' % (rng.choice('abc'), j): gen_val(rng) for j in range(rng.choice([0, 1, 2, 5, 5, 40, 400]))}}
        t = 'WC'
    elif r < 0.8:
        d = {'eft': 'E1', 'basis': rng.choice(['B1', 'B2']),
             'sectors': {'s%d' % j: {'c%d_%d' % (j, i): rng.choice([None, {'real': True}, {'tex': rng.choice(TEXTS)}]) for i in range(rng.choice([0, 2, 20]))}
                         for j in range(rng.choice([0, 1, 3]))}}
        t = 'Basis'
    else:
        d = {'eft': 'E1', 'sectors': {'s%d' % j: rng.choice([None, {}, {'dB': 1}, {'dL': {'e': 1}}]) for j in range(rng.choice([0, 1, 3]))}}
        t = 'EFT'
    if rng.random() < 0.5:
        d['metadata'] = {'description': gen_meta(rng), 'author': rng.choice(TEXTS)}
    if rng.random() < 0.2:
        d['extra'] = gen_meta(rng)
    return {'t': t, 'data': d}


def gen_fault(rng, op, size):
    f = _gen_fault(rng, op, size)
    if 'err' in f and f['op'] != 'close' and rng.random() < 0.3:
        f['once'] = 1                            # goes away after it happened
    return f


def _gen_fault(rng, op, size):
    pos = rng.choice([0, 1, size // 2, max(0, size - 1), size, rng.randrange(size + 1)])
    r = rng.random()
    if op == 'write':
        if r < 0.4:
            return {'op': 'write', 'after': pos, 'err': rng.choice(['ENOSPC', 'EIO', 'EDQUOT', 'KeyboardInterrupt'])}
        if r < 0.7:
            return {'op': 'write', 'short': rng.choice([1, 3, 17, 100])}
        if r < 0.85:
            return {'op': 'close', 'err': rng.choice(['EIO', 'ENOSPC'])}
        return {'op': 'open', 'err': rng.choice(['EACCES', 'ENOSPC', 'EMFILE'])}
    if r < 0.35:
        return {'op': 'read', 'after': pos, 'err': rng.choice(['EIO', 'ESTALE', 'KeyboardInterrupt'])}
    if r < 0.6:
        return {'op': 'read', 'short': rng.choice([1, 2, 5, 64])}
    if r < 0.92:
        return {'op': 'read', 'torn': pos}
    return {'op': 'open', 'err': rng.choice(['EACCES', 'ENOENT', 'EIO'])}


EXAMPLE = {'t': 'WC', 'data': {'eft': 'WET', 'basis': 'flavio', 'scale': 91.0, 'values': {'a': 1.0, 'b': {'Re': 1.0, 'Im': 2.0}}, 'metadata': None}}


def generate(rng, i):
    ops = []
    for _ in range(rng.randint(1, 6)):
        o = gen_obj(rng)
        fmt = rng.choice(['json', 'json', 'yaml'])
        if rng.random() < 0.1:
            fmt = fmt.upper()
        if rng.random() < 0.012:
            # a large file: longer than any buffer on the way
            o['big'] = rng.choice([9000, 70000, 300000, 1100000, 2200000])
            if o['big'] > 10000:
                fmt = 'json'
        size = len(json.dumps(data_of(o)))
        op = {'obj': o, 'fmt': fmt, 'w': rng.choice(['string', 'text', 'text', 'refuse']), 'r': rng.choice(['string', 'text', 'text', 'binary']),
              'wf': [], 'rf': []}
        if op['w'] == 'text' and rng.random() < 0.5:
            op['wf'] = [gen_fault(rng, 'write', size)]
        if op['w'] == 'text' and rng.random() < 0.3:
            op['buf'] = 1                                # line by line
        if op['w'] == 'text' and rng.random() < 0.12:
            op['crash'] = round(rng.random(), 3)         # the process dies while writing
        if op['fmt'] == 'json' and op['w'] != 'refuse' and size < 5000 and rng.random() < 0.06:
            op['tail'] = rng.randint(1, 150)             # the end of an older, longer file is still there
        if op['w'] == 'refuse':
            op['after'] = rng.choice([0, 0, 1, 5, size // 2, size, 10 ** 9])
            op['err'] = rng.choice(['ENOSPC', 'EPIPE', 'EIO'])
            if rng.random() < 0.3:
                op['once'] = 1
        if op['r'] != 'string' and rng.random() < 0.55:
            op['rf'] = [gen_fault(rng, 'read', size)]
            if rng.random() < 0.2:
                op['rf'].append({'op': 'read', 'short': rng.choice([1, 7])})
        if rng.random() < 0.35:
            op['convert'] = rng.choice(['same', 'refuse'])
            op['cafter'] = rng.choice([0, 1, size // 2, size])
            if rng.random() < 0.3:
                op['conce'] = 1
        if rng.random() < 0.15:
            op['kw'] = {'indent': rng.choice([None, 4])} if fmt.lower() == 'json' else {'default_flow_style': True}
        if rng.random() < 0.1 and o['t'] == 'WC':
            op['wilson'] = True
        if 'big' in o:
            for q in 'wf', 'rf':
                op[q] = [f for f in op[q] if 'short' not in f]
            if o['big'] > 10000:
                op.pop('convert', None)
                # a cut file of this size would go through the slow YAML parser
                op.pop('crash', None)
                op['rf'] = [f for f in op['rf'] if 'torn' not in f]
                if op['w'] == 'refuse':
                    op['w'] = 'string'
                op['wf'] = []
        ops.append(op)
    faults = []
    if rng.random() < 0.25:
        j = rng.randrange(len(ops))
        ex = {'obj': EXAMPLE, 'fmt': ops[j]['fmt'].lower(), 'w': 'text', 'r': 'text', 'wf': [], 'rf': []}

        def make():
            plane.reset()
            plane.active = True
            sc = work.Scratch().__enter__()
            return lambda: (run(sc, 0, ex), sc.__exit__())
        loc = work.pick_line(rng, work.lines_for(['c11', ex], make), ())
        if loc:
            faults.append({'op': j, 'at': ['0.%d' % j, loc[0], loc[1]], 'do': 'raise', 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError', 'OSError'])})
    return {'ops': ops, 'faults': faults}


OLD = json.dumps({'eft': 'WET', 'basis': 'flavio', 'scale': 4.2, 'values': {'old_%d' % j: {'Re': 1e-3 * j, 'Im': 1.0} for j in range(4)},
                  'metadata': {'author': 'nobody'}}, indent=2).encode()


def _unreadable(data):
    import yaml
    for f in json.loads, yaml.safe_load:
        if outcome(f, data.decode('utf-8', 'replace'))[0] == 'ok':
            return False
    return True


class Refusing(io.TextIOBase):
    """A text stream that takes `after` characters and then fails at once."""

    def __init__(self, after, err, once=0):
        self.once = once
        self.after, self.err, self.got, self.refused = after, err, '', 0

    def writable(self):
        return True

    def write(self, s):
        import errno
        if len(self.got) + len(s) > self.after and not (self.once and self.refused):
            self.refused += 1
            raise OSError(getattr(errno, self.err), 'injected')
        self.got += s
        return len(s)


def public(x):
    return copy.deepcopy({k: v for k, v in vars(x).items() if k[0] != '_'})


def data_of(o):
    d = copy.deepcopy(o['data'])
    if 'big' in o:
        d['bulk'] = ['%06d' % j + 'é"\\\n: #'[j % 7] * 93 for j in range(o['big'] // 100)]
    return d


def build(o):
    from wilson import wcxf
    return getattr(wcxf, o['t'])(**data_of(o))


def run(sc, n, op):
    from wilson import wcxf
    from wilson.wcxf.converters import yamljson
    cls = getattr(wcxf, op['obj']['t'])
    x = build(op['obj'])
    name = 'f%d.%s' % (n, op['fmt'].lower())
    p = sc.path(name)
    kw = op.get('kw', {})
    out = {'steps': []}
    text = None

    def step(what, fn):
        b = sum(plane.fired.values())
        torn = plane.fired['disk:torn-file'] + plane.fired['disk:short-read'] + plane.fired['disk:short-write']
        r = outcome(fn)
        f = sum(plane.fired.values()) - b
        harmless = plane.fired['disk:torn-file'] + plane.fired['disk:short-read'] + plane.fired['disk:short-write'] - torn
        out['steps'].append([what, r[0] if r[0] == 'ok' else r[1], '' if r[0] == 'ok' else r[2], f - harmless])
        return r

    # write
    if op['w'] == 'string':
        r = step('dump', lambda: x.dump(fmt=op['fmt'], **kw))
        if r[0] == 'ok':
            text = r[1]
            sc.put(name, text)
    elif op['w'] == 'refuse':
        s = Refusing(op['after'], op['err'], op.get('once', 0))
        r = step('dump', lambda: x.dump(s, fmt=op['fmt'], **kw))
        out['refused'] = s.refused
        if s.refused:
            plane.fire('stream:refused-write')
        if r[0] == 'ok':
            text = s.got
            sc.put(name, text)
    else:
        plane.files[p] = op['wf']

        def w():
            with open(p, 'w', op.get('buf', -1), encoding='utf-8') as f:
                x.dump(f, fmt=op['fmt'], **kw)
        r = step('dump', w)
        plane.files.pop(p, None)
        if 'crash' in op and r[0] == 'ok':
            data = sc.get(name)
            sc.put(name, data[:int(len(data) * op['crash'])])
            out['crash'] = [int(len(data) * op['crash']), len(data)]
            plane.fire('disk:crash-while-writing')
    data = sc.get(name)
    if 'tail' in op and data is not None and r[0] == 'ok':
        data += OLD[-op['tail']:]
        sc.put(name, data)
        out['tail'] = _unreadable(data)
        plane.fire('disk:lost-truncation')
    out['file'] = data
    if data is None:
        return out
    # read
    plane.files[p] = op['rf']

    def rd():
        if op['r'] == 'string':
            return cls.load(data.decode('utf-8'))
        if op['r'] == 'binary':
            with open(p, 'rb') as f:
                return cls.load(f)
        with open(p, encoding='utf-8') as f:
            return cls.load(f)
    torn = [f['torn'] for f in op['rf'] if 'torn' in f]
    out['seen'] = min([len(data)] + (torn if op['r'] != 'string' else []))
    r = step('load', rd)
    plane.files.pop(p, None)
    if r[0] == 'ok':
        out['loaded'] = public(r[1])
        if op['obj']['t'] == 'WC':
            out['dict'] = outcome(lambda: {k: complex(v) for k, v in r[1].dict.items()})
    # convert to the other format
    if op.get('convert') and op['w'] != 'text':
        to = 'json' if op['fmt'].lower() == 'yaml' else 'yaml'
        s = io.StringIO() if op['convert'] == 'same' else Refusing(op['cafter'], 'ENOSPC', op.get('conce', 0))
        r = step('convert', lambda: getattr(yamljson, 'convert_' + to)(io.StringIO(data.decode('utf-8')), s))
        out['cret'] = r[1] if r[0] == 'ok' else None
        out['crefused'] = getattr(s, 'refused', 0)
        if out['crefused']:
            plane.fire('stream:refused-write')
        t = s.getvalue() if op['convert'] == 'same' else s.got
        if r[0] == 'ok':
            r = step('reload', lambda: public(cls.load(t)))
            out['converted'] = r[1] if r[0] == 'ok' else None
    return out


def execute(plan):
    with World(plan) as world, work.Scratch() as sc:
        trace = []
        opsC, outC, states = collections.Counter(), collections.Counter(), set()
        nt = 0
        for i, o in enumerate(plan['ops']):
            world.begin(i)
            r = outcome(run, sc, i, o)
            line = world.sim.hits['0.%d' % i]
            world.end()
            if r[0] == 'ok':
                for s in r[1]['steps']:
                    opsC[s[0]] += 1
                    outC['%s:%s' % (s[0], s[1])] += 1
                nt += 'loaded' in r[1]
            states.add(core.digest([o['obj']['t'], o['fmt'], o['w'], o['r'], [f['op'] for f in o['wf'] + o['rf']],
                                    [s[:2] for s in r[1]['steps']] if r[0] == 'ok' else r]))
            trace.append([i, line, r])
        left = [f for f in sc.tree() if not f.startswith('f')]
    return {'trace': trace, 'left': left, 'faults': world.faults(), 'ops': opsC, 'outcomes': outC, 'states': states,
            'steps': world.sim.step, 'nontrivial': nt > 0}


def same(a, b):
    """Equal data, numbers to the last bit (0 and -0.0 apart), NaN equal."""
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b and math.copysign(1, a) == math.copysign(1, b) or a != a and b != b
    if isinstance(a, dict) and isinstance(b, dict):
        return list(map(str, sorted(a))) == list(map(str, sorted(b))) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def judge(plan, obs, refs):
    out = []
    for i, line, r in obs['trace']:
        op = plan['ops'][i]
        want = data_of(op['obj'])
        what = 'operation %d (%s as %s, write %s, read %s)' % (i, op['obj']['t'], op['fmt'], op['w'], op['r'])
        if r[0] != 'ok':
            if not line:
                out.append(Violation('construction-fails', '%s: %s: %s' % (what, r[1], r[2])))
            continue
        o = r[1]
        for name, res, msg, hit in o['steps']:
            if res != 'ok' and not hit and not line and not _excuse(name, op, o):
                out.append(Violation('needless-failure', '%s: %s raises %s: %s' % (what, name, res, msg)))
            once = any(f.get('once') for f in op['wf' if name == 'dump' else 'rf'])
            if res == 'ok' and hit and name in ('dump', 'load') and not once:
                out.append(Violation('failure-not-reported', '%s: %s returned although the device failed' % (what, name)))
        st = {s[0]: s[1] for s in o['steps']}
        # a failure that goes away can be overcome: then the data decide.  One
        # that was reported may have left a hole
        holes = st.get('dump') != 'ok' and any(f.get('once') for f in op['wf'])
        if o.get('refused') and st['dump'] == 'ok' and not op.get('once'):
            out.append(Violation('failure-not-reported', '%s: dump returned although the stream refused a write' % what))
        complete = st.get('dump') == 'ok' and 'crash' not in o and 'tail' not in o and o.get('seen') == len(o['file'] or b'')
        if o.get('crefused') and st.get('convert') == 'ok' and not o['cret'] and op.get('conce') and complete \
                and (o.get('converted') is None or not same(o['converted'], want)):
            out.append(Violation('conversion-changes-data', '%s: %s' % (what, _cut(o.get('converted') or {}, want))))
        if o.get('crefused') and st.get('convert') == 'ok' and not op.get('conce'):
            out.append(Violation('failure-not-reported', '%s: convert returned %r although the stream refused a write' % (what, o['cret'])))
        if complete and 'loaded' in o and not same(o['loaded'], want):
            out.append(Violation('data-changed', '%s: loaded %s instead of %s' % (what, _cut(o['loaded'], want), _cut(want, o['loaded']))))
        if complete and 'loaded' in o and 'dict' in o and _numbers(want['values']) and not line:
            ref = {k: work.number(v) for k, v in want['values'].items()}
            if o['dict'][0] != 'ok' or o['dict'][1] != ref:
                out.append(Violation('data-changed', '%s: the loaded object has other values' % what))
        if o.get('tail') and 'loaded' in o and o['seen'] == len(o['file']):
            out.append(Violation('object-from-part-of-a-file', '%s: the file ends with the rest of an older one, and an object was made from its beginning' % what))
        if not complete and not holes and 'tail' not in o and 'loaded' in o and op['fmt'].lower() == 'json' and not same(o['loaded'], want):
            out.append(Violation('object-from-part-of-a-file', '%s: %s of %s bytes were read, and an object was made: %s'
                                 % (what, o.get('seen'), len(o['file']), str(o['loaded'])[:200])))
        if not complete and not holes and 'tail' not in o and op['fmt'].lower() == 'json' and 'loaded' in o and o['file'] is not None \
                and _part(o) and not line:
            out.append(Violation('object-from-part-of-a-file', '%s: an object was made from an incomplete file' % what))
        if st.get('convert') == 'ok' and complete:
            if o['cret']:
                if not line:
                    out.append(Violation('needless-failure', '%s: convert returned %r' % (what, o['cret'])))
            elif not o.get('crefused') and (o.get('converted') is None or not same(o['converted'], want)) and not line:
                out.append(Violation('conversion-changes-data', '%s: %s' % (what, _cut(o.get('converted') or {}, want))))
    if obs['left']:
        out.append(Violation('files-left', 'unexpected files %r' % obs['left']))
    return out


def _excuse(name, op, o):
    """Failures that must happen: a torn or refused stream."""
    if name == 'dump':
        return bool(o.get('refused'))
    if name == 'convert':
        return bool(o.get('crefused')) or not _whole(o)
    return not _whole(o)


def _whole(o):
    return o['steps'][0][1] == 'ok' and 'crash' not in o and 'tail' not in o and o.get('seen') == len(o['file'])


def _part(o):
    try:
        json.loads(o['file'][:o['seen']])
        return False
    except ValueError:
        return True


def _numbers(v):
    return True


def _cut(a, b):
    return {k: v for k, v in a.items() if k not in b or not same(v, b[k])} if isinstance(a, dict) else a


def fix_shrunk(plan, path, removed):
    return work.move_faults(plan, removed) if path == ('ops',) else plan
