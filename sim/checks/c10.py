"""C10: the registry holds exactly the definitions that loaded completely."""
import collections
import copy
import io
import json

from .. import core, work
from ..core import Violation, outcome
from ..work import World

ID = 'C10'
RUNS = {'quick': 3000, 'thorough': 150000}
CAP = {'quick': 300, 'thorough': 1200}
RULE = ('A run is a history of 5-30 registry operations on made-up EFTs, bases (with parents), translators and matchers next to the ones of the package: '
        'loading from JSON/YAML/direct construction, replacing, deleting, clearing, using (translate, match, validate, all_wcs), with invalid definitions, '
        'torn and failing streams and exceptions at a chosen line. The whole registry is compared with a dictionary model after each operation. '
        'Non-trivial: at least one failed and two successful loads.')
REAL = ['wilson/wcxf/classes.py']
STUBS = ['EFT and basis files of the package are not used by this check: names are made up', 'latex (simulated process)']
ASSUMPTIONS = ['Definitions are not modified by the user after loading.']
STATES = 'distinct registries (names and data) after each operation'

EFTS = ['E', 'E-4']
BASES = ['B', 'B up', 'b']
SECS = ['s1', 's2', 's3']
FAIL_TEXT = ['torn', 'EIO', 'interrupt']


def gen_sectors(rng, tag, allow_bad=True):
    out = {}
    for s in rng.sample(SECS, rng.choice([0, 1, 1, 2, 3])):
        out[s] = {}
        for j in range(rng.choice([0, 1, 2, 3])):
            name = '%s_%s_%d' % (s, tag if rng.random() < 0.5 else 'x', j)
            out[s][name] = rng.choice([None, {'real': True}, {'tex': r'C_{%d}' % j}, {'real': False, 'tex': r'\bad' if rng.random() < 0.1 else 'c'}])
    if allow_bad and rng.random() < 0.06 and len(out) > 1:
        # the same coefficient in two sectors: loads, but does not validate
        a, b = list(out)[:2]
        for k in list(out[a])[:1]:
            out[b][k] = None
    return out


def gen_op(rng, n):
    r = rng.random()
    how = rng.choice(['json', 'json', 'yaml', 'direct', 'stream'])
    tag = 'v%d' % n
    if r < 0.12:
        d = {'eft': rng.choice(EFTS), 'sectors': {s: {'dB': 0} for s in rng.sample(SECS, rng.choice([1, 2, 3]))}}
        if rng.random() < 0.3:
            d['metadata'] = {'description': tag}
        return {'op': 'load', 'cls': 'EFT', 'how': how, 'data': d}
    if r < 0.5:
        d = {'eft': rng.choice(EFTS), 'basis': rng.choice(BASES), 'sectors': gen_sectors(rng, tag)}
        if rng.random() < 0.4:
            d['metadata'] = {'description': tag}
        if rng.random() < 0.45:
            d['parent'] = rng.choice(BASES + ['nowhere'])
        x = rng.random()
        if x < 0.05:
            d.pop(rng.choice(['eft', 'basis', 'sectors']))
        elif x < 0.09:
            d['sectors'] = rng.choice([None, 7, 'text', ['abc']]) if 'parent' in d else d['sectors']
        return {'op': 'load', 'cls': 'Basis', 'how': how, 'data': d}
    if r < 0.6:
        return {'op': 'translator', 'name': [rng.choice(EFTS)] + rng.sample(BASES, 2), 'id': n, 'how': rng.choice(['decorator', 'class']),
                'fails': rng.random() < 0.2}
    if r < 0.68:
        a, b = rng.choice([('E', 'E-4'), ('E-4', 'E')])
        return {'op': 'matcher', 'name': [a, rng.choice(BASES), b, rng.choice(BASES)], 'id': n, 'how': rng.choice(['decorator', 'class']),
                'fails': rng.random() < 0.2}
    if r < 0.78:
        c = rng.choice(['EFT', 'Basis', 'Basis', 'Translator', 'Matcher'])
        nm = {'EFT': lambda: rng.choice(EFTS), 'Basis': lambda: [rng.choice(EFTS), rng.choice(BASES)],
              'Translator': lambda: [rng.choice(EFTS)] + rng.sample(BASES, 2),
              'Matcher': lambda: ['E', rng.choice(BASES), 'E-4', rng.choice(BASES)]}[c]()
        return {'op': 'del', 'cls': c, 'name': nm, 'how': rng.choice(['item', 'method'])}
    if r < 0.8:
        return {'op': 'clear', 'cls': rng.choice(['EFT', 'Basis', 'Translator', 'Matcher'])}
    if r < 0.88:
        return {'op': 'translate', 'name': [rng.choice(EFTS)] + [rng.choice(BASES), rng.choice(BASES)]}
    if r < 0.93:
        return {'op': 'match', 'name': ['E', rng.choice(BASES), 'E-4', rng.choice(BASES)]}
    if r < 0.97:
        return {'op': 'validate', 'name': [rng.choice(EFTS), rng.choice(BASES)]}
    return {'op': 'wc', 'name': [rng.choice(EFTS), rng.choice(BASES)], 'keys': ['s1_x_0', 's2_x_1'][:rng.randint(0, 2)]}


EXAMPLES = {
    'load': {'op': 'load', 'cls': 'Basis', 'how': 'json', 'data': {'eft': 'E', 'basis': 'B up', 'parent': 'B', 'metadata': {},
                                                                     'sectors': {'s1': {'a': None}}}},
    'loadE': {'op': 'load', 'cls': 'EFT', 'how': 'json', 'data': {'eft': 'E', 'sectors': {}, 'metadata': {}}},
    'translator': {'op': 'translator', 'name': ['E', 'B', 'B up'], 'id': 1, 'how': 'decorator', 'fails': False},
    'matcher': {'op': 'matcher', 'name': ['E', 'B', 'E-4', 'B up'], 'id': 1, 'how': 'decorator', 'fails': False},
    'del': {'op': 'del', 'cls': 'Basis', 'name': ['E', 'B'], 'how': 'item'},
    'clear': {'op': 'clear', 'cls': 'Translator'},
    'translate': {'op': 'translate', 'name': ['E', 'B', 'B up']},
    'match': {'op': 'match', 'name': ['E', 'B', 'E-4', 'B up']},
    'validate': {'op': 'validate', 'name': ['E', 'B']},
    'wc': {'op': 'wc', 'name': ['E', 'B'], 'keys': ['a']},
}
PREP = [{'op': 'load', 'cls': 'EFT', 'how': 'json', 'data': {'eft': 'E', 'sectors': {'s1': {}}}},
        {'op': 'load', 'cls': 'Basis', 'how': 'json', 'data': {'eft': 'E', 'basis': 'B', 'sectors': {'s1': {'a': None}}}},
        {'op': 'translator', 'name': ['E', 'B', 'B up'], 'id': 0, 'how': 'class', 'fails': False},
        {'op': 'matcher', 'name': ['E', 'B', 'E-4', 'B up'], 'id': 0, 'how': 'class', 'fails': False}]


def generate(rng, i):
    ops = []
    for n in range(rng.randint(5, 30)):
        o = gen_op(rng, n)
        if o['op'] == 'load' and o['how'] == 'stream':
            o['how'] = 'json'
            o['tear'] = [rng.choice(FAIL_TEXT), round(rng.random(), 3)]
        ops.append(o)
        if o['op'] == 'load' and rng.random() < 0.25:
            ops.append(copy.deepcopy(o))            # again, perhaps with a failure this time
            ops[-1]['tear'] = [rng.choice(FAIL_TEXT), round(rng.random(), 3)]
            ops[-1]['how'] = 'json'
    faults = []
    if rng.random() < 0.6:
        for _ in range(rng.choice([1, 1, 2, 3])):
            j = rng.randrange(len(ops))
            o = ops[j]
            ex = EXAMPLES['loadE' if o.get('cls') == 'EFT' and o['op'] == 'load' else o['op']]

            def make():
                env = Env()
                for p in PREP:
                    env.run(p)
                return lambda: env.run(ex)
            loc = work.pick_line(rng, work.lines_for(['c10', ex], make), ('wilson/wcxf/classes.py',))
            if loc:
                faults.append({'op': j, 'at': ['0.%d' % j, loc[0], loc[1]], 'do': 'raise',
                               'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
    p = rng.choice([0, 0, 0.5, 0.8, 1])
    for o in ops:
        if rng.random() < p:
            o['quiet'] = 1
    return {'ops': ops, 'faults': faults}


class TornText(io.StringIO):
    def __init__(self, text, how, frac):
        super().__init__(text)
        self.how, self.cut = how, min(int(len(text) * frac), len(text) - 1)
        self.fired = False

    def read(self, n=-1):
        self.fired = True
        if self.how == 'torn':
            return self.getvalue()[:self.cut]
        if self.how == 'EIO':
            raise OSError(5, 'injected I/O error')
        raise KeyboardInterrupt('injected')


class Env:
    def __init__(self):
        import yaml
        from wilson import wcxf
        self.w = wcxf
        self.hit = 0
        for c in ('EFT', 'Basis', 'Translator', 'Matcher'):
            getattr(wcxf, c).clear_all()

    def run(self, o):
        w = self.w
        k = o['op']
        if k == 'load':
            cls = getattr(w, o['cls'])
            d = copy.deepcopy(o['data'])
            if o['how'] == 'direct':
                cls(**d)
                return
            if o['how'] == 'yaml':
                import yaml
                return _none(cls.load(yaml.safe_dump(d)))
            text = json.dumps(d)
            if 'tear' in o:
                self.hit = 1
                s = TornText(text, *o['tear'])
                if s.how == 'torn':
                    self.hit = 0
                return _none(cls.load(s))
            return _none(cls.load(text))
        if k in ('translator', 'matcher'):
            n, fails = o['id'], o['fails']

            def f(C, scale, parameters, sectors=None):
                if fails:
                    raise ZeroDivisionError('converter %d' % n)
                return {'mark': float(n), 'zero': 0.0, 'in': sum(C.values())}
            if o['how'] == 'decorator':
                getattr(w, k)(*o['name'])(f)
            else:
                getattr(w, k.capitalize())(*o['name'], f)
            return
        if k == 'del':
            cls = getattr(w, o['cls'])
            nm = tuple(o['name']) if isinstance(o['name'], list) else o['name']
            if o['how'] == 'item':
                del cls[nm]
            else:
                cls.del_instance(nm)
            return
        if k == 'clear':
            return getattr(w, o['cls']).clear_all()
        if k == 'translate':
            e, a, b = o['name']
            wc = w.WC(e, a, 10.0, {'p': 2.0})
            r = wc.translate(b)
            return [r.eft, r.basis, r.scale, dict(r.values), r is wc]
        if k == 'match':
            e, a, e2, b = o['name']
            r = w.WC(e, a, 10.0, {'p': 2.0}).match(e2, b)
            return [r.eft, r.basis, r.scale, dict(r.values)]
        if k == 'validate':
            return w.Basis[tuple(o['name'])].validate()
        if k == 'wc':
            return w.WC(o['name'][0], o['name'][1], 1.0, {x: 1.0 for x in o['keys']}).validate()

    def look(self):
        w = self.w
        out = {}
        for c in ('EFT', 'Basis', 'Translator', 'Matcher'):
            cls = getattr(w, c)
            ents = {}
            for name in list(getattr(cls, 'instances', {})):
                x = cls[name]
                d = {k: v for k, v in vars(x).items() if k[0] != '_' and k != 'function'}
                if c in ('Translator', 'Matcher'):
                    f = outcome(getattr(x, 'function', None), {'p': 1.0}, 1.0, None)
                    d['_mark'] = f[1]['mark'] if f[0] == 'ok' else f[2]
                if c == 'Basis':
                    d['_all_wcs'] = outcome(lambda: sorted(x.all_wcs))
                    d['_kt'] = outcome(lambda: {k: sorted(map(list, v)) for k, v in x.known_translators.items()})
                if c == 'EFT':
                    d['_bases'] = outcome(lambda: sorted(x.known_bases))
                    d['_kt'] = outcome(lambda: sorted(map(list, x.known_translators)))
                ents[json.dumps(name)] = [copy.deepcopy(d), cls.get_instance(name) is x]
            out[c] = ents
        return out


def _none(x):
    return None


def execute(plan):
    with World(plan) as world:
        from ..world import plane
        plane.latex = {'kind': 'by-source', 'bad_macros': [r'\bad']}
        env = Env()
        trace = []
        opsC, outC, states = collections.Counter(), collections.Counter(), set()
        fail = ok = torn = 0
        for i, o in enumerate(plan['ops']):
            env.hit = 0
            world.begin(i)
            lat = plane.fired.get('latex:rejects-source', 0)
            r = outcome(env.run, o)
            hit = world.fired() - (plane.fired.get('latex:rejects-source', 0) - lat) + env.hit
            world.end()
            torn += 'tear' in o
            opsC[o['op']] += 1
            outC['%s:%s' % (o['op'], 'ok' if r[0] == 'ok' else r[1])] += 1
            if o['op'] == 'load':
                ok += r[0] == 'ok'
                fail += r[0] != 'ok'
            # looking fills the lazily computed views and may hide something: not after every operation
            quiet = o.get('quiet') and not hit and i < len(plan['ops']) - 1
            trace.append([i, hit, list(r), None if quiet else env.look()])
            if not quiet:
                states.add(core.digest(trace[-1][3]))
        f = world.faults()
        if torn:
            f['stream:torn-or-failing'] = torn
    return {'trace': trace, 'faults': f, 'ops': opsC, 'outcomes': outC, 'states': states,
            'steps': world.sim.step, 'nontrivial': ok >= 2 and fail >= 1}


# ---------------------------------------------------------------------------

class Model:
    def __init__(self):
        self.r = {c: {} for c in ('EFT', 'Basis', 'Translator', 'Matcher')}

    def apply(self, o):
        """Returns 'ok', 'err' or 'any' (not specified), and changes self."""
        k = o['op']
        if k == 'load':
            d = o['data']
            need = ('eft', 'sectors') if o['cls'] == 'EFT' else ('eft', 'basis', 'sectors')
            if any(n not in d for n in need):
                return 'err'
            if 'tear' in o:
                return 'err'
            if o['cls'] == 'EFT':
                self.r['EFT'][json.dumps(d['eft'])] = copy.deepcopy(d)
                return 'ok'
            name = json.dumps([d['eft'], d['basis']])
            if 'parent' in d:
                p = self.r['Basis'].get(json.dumps([d['eft'], d['parent']]))
                if p is None or not isinstance(d['sectors'], dict):
                    return 'err'
                s = copy.deepcopy(p['sectors'])
                s.update(copy.deepcopy(d['sectors']))
                self.r['Basis'][name] = dict(copy.deepcopy(d), sectors=s)
                return 'ok'
            self.r['Basis'][name] = copy.deepcopy(d)
            return 'ok'
        if k == 'translator':
            e, a, b = o['name']
            self.r['Translator'][json.dumps(o['name'])] = {
                'eft': e, 'from_basis': a, 'to_basis': b, '_mark': 'converter %d' % o['id'] if o['fails'] else float(o['id'])}
            return 'ok'
        if k == 'matcher':
            e, a, e2, b = o['name']
            self.r['Matcher'][json.dumps(o['name'])] = {
                'from_eft': e, 'from_basis': a, 'to_eft': e2, 'to_basis': b,
                '_mark': 'converter %d' % o['id'] if o['fails'] else float(o['id'])}
            return 'ok'
        if k == 'del':
            return 'ok' if self.r[o['cls']].pop(json.dumps(o['name']), None) is not None else 'err'
        if k == 'clear':
            self.r[o['cls']] = {}
            return 'ok'
        if k == 'translate':
            e, a, b = o['name']
            if a == b:
                return ['ok', [e, b, 10.0, {'p': 2.0}, True]]
            t = self.r['Translator'].get(json.dumps(o['name']))
            return self._conv(t, e, b, [False])
        if k == 'match':
            e, a, e2, b = o['name']
            return self._conv(self.r['Matcher'].get(json.dumps(o['name'])), e2, b, [])
        if k == 'validate':
            b = self.r['Basis'].get(json.dumps(o['name']))
            e = self.r['EFT'].get(json.dumps(o['name'][0]))
            if b is None or e is None:
                return 'err'
            keys = [x for s in b['sectors'].values() for x in s]
            bad = any('\\bad' in (d or {}).get('tex', '') for s in b['sectors'].values() for d in s.values())
            return 'ok' if set(b['sectors']) <= set(e['sectors']) and len(keys) == len(set(keys)) and not bad else 'err'
        if k == 'wc':
            b = self.r['Basis'].get(json.dumps(o['name']))
            e = self.r['EFT'].get(json.dumps(o['name'][0]))
            if b is None or e is None:
                return 'err'
            return 'ok' if set(o['keys']) <= {x for s in b['sectors'].values() for x in s} else 'err'

    def _conv(self, t, eft, basis, tail):
        if t is None:
            return 'err'
        if isinstance(t['_mark'], str):
            return 'err'
        vals = {'mark': t['_mark'], 'in': 2.0}
        return ['ok', [eft, basis, 10.0, {k: v for k, v in vals.items() if v != 0}] + tail]

    def look(self):
        out = {}
        for c, ents in self.r.items():
            out[c] = {}
            for n, d in ents.items():
                d = copy.deepcopy(d)
                name = json.loads(n)
                if c == 'Basis':
                    d['_all_wcs'] = ('ok', sorted(w for s in d['sectors'].values() for w in s))
                    ts = [json.loads(t) for t in self.r['Translator']]
                    d['_kt'] = ('ok', {'from': sorted(t for t in ts if t[0] == name[0] and t[1] == name[1]),
                                       'to': sorted(t for t in ts if t[0] == name[0] and t[2] == name[1])})
                if c == 'EFT':
                    d['_bases'] = ('ok', sorted(json.loads(b)[1] for b in self.r['Basis'] if json.loads(b)[0] == name))
                    d['_kt'] = ('ok', sorted(json.loads(t) for t in self.r['Translator'] if json.loads(t)[0] == name))
                out[c][n] = [d, True]
        return out


def diff(a, b):
    for c in a:
        if set(a[c]) != set(b[c]):
            return '%s: registered %s, should be %s' % (c, sorted(a[c]), sorted(b[c]))
        for n in a[c]:
            if a[c][n] != b[c][n]:
                x, y = a[c][n][0], b[c][n][0]
                for k in sorted(set(x) | set(y)):
                    if x.get(k) != y.get(k):
                        return '%s %s: %s is %r, should be %r' % (c, n, k, x.get(k), y.get(k))
                return '%s %s: lookup gives another object' % (c, n)
    return None


def judge(plan, obs, refs):
    m = Model()
    for i, hit, r, look in obs['trace']:
        o = plan['ops'][i]
        what = 'operation %d %s%s' % (i, json.dumps(o), ' (hit by an injected failure)' if hit else '')
        old = copy.deepcopy(m)
        exp = m.apply(o)
        if r[0] == 'ok':
            if exp == 'err':
                return [Violation('invalid-operation-succeeds', '%s did not fail' % what)]
            if isinstance(exp, list) and r[1] != exp[1]:
                return [Violation('wrong-converter', '%s gives %r, should be %r' % (what, r[1], exp[1]))]
        elif not hit:
            if exp != 'err':
                return [Violation('valid-operation-fails', '%s raises %s: %s' % (what, r[1], r[2]))]
        if look is None:
            continue
        d = diff(look, m.look())
        if d and r[0] != 'ok':
            # failed: nothing may have changed, or (interrupted after it had completed) everything
            if not hit or diff(look, old.look()):
                return [Violation('registry-wrong', 'after failed %s (%s): %s' % (what, r[1], d))]
            m = old
            d = None
        if d:
            return [Violation('registry-wrong', 'after %s: %s' % (what, d))]
    return []


def fix_shrunk(plan, path, removed):
    return work.move_faults(plan, removed) if path == ('ops',) else plan
