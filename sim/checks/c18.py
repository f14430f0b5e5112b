"""C18: importing the package from any directory order, or failing cleanly."""
import collections
import copy
import importlib
import importlib.machinery
import json
import os
import sys

from .. import core, work
from ..core import Violation, outcome
from ..world import plane

ID = 'C18'
IMPORT = False
RUNS = {'quick': 900, 'thorough': 20000}
CAP = {'quick': 300, 'thorough': 1600}
RULE = ('A run is a new process importing the package 1-3 times, starting with any of its modules, over a directory of definition files listed in any order, with additional EFTs, bases and children, '
        'files that are not definitions, files that are torn, empty, undecodable or invalid, and open, read and listing failures; between '
        'attempts the directory may be repaired. Compared with the files and with an import in a process without any of this. '
        'Non-trivial: an import succeeded over a permuted directory, or something was damaged.')
REAL = ['wilson/ (import of every module)', 'wilson/wcxf/__init__.py', 'wilson/wcxf/classes.py', 'numpy', 'scipy']
STUBS = [work.STUB_DEFS]
ASSUMPTIONS = [work.ASSUME_DEFS, 'A process forked before the first import of the package stands for a fresh interpreter; the byte code of the package is compiled once.',
               'Parents of child bases lie in the main directory.']
STATES = 'distinct (outcomes of the attempts, damaged files)'

MODULES = ['wilson', 'wilson', 'wilson.wcxf', 'wilson.wcxf.classes', 'wilson.translate', 'wilson.match', 'wilson.run', 'wilson.run.wet', 'wilson.run.smeft', 'wilson.util.common',
           'wilson.util.wet_jms', 'wilson.parameters', 'wilson.classes', 'wilson.util.qcd', 'wilson.wcxf.cli', 'wilson.wcxf.converters.eos', 'wilson.translate.wet',
           'wilson.match.smeft', 'wilson.run.wet.adm', 'wilson.run.smeft.beta']
DEFS = os.path.join(core.HERE, 'defs')
_files = {}


def files():
    if not _files:
        for d, _, names in os.walk(DEFS):
            for n in names:
                if n.endswith('.json'):
                    p = os.path.join(d, n)
                    with open(p) as f:
                        _files[os.path.relpath(p, DEFS)] = f.read()
    return _files


def generate(rng, i):
    names = sorted(files())
    extra = {}
    for k in range(rng.choice([0, 0, 1, 2, 4])):
        r = rng.random()
        if r < 0.3:
            d = {'eft': 'EX%d' % k, 'sectors': {'s1': {'dB': 0}, 's2': None}}
            extra['EX%d.eft.json' % k] = d
            if rng.random() < 0.5:
                extra['EX%d.b.basis.json' % k] = {'eft': 'EX%d' % k, 'basis': 'b', 'sectors': {'s1': {'C_1': {'real': True}}}}
        elif r < 0.5:
            e = rng.choice(['WET', 'SMEFT', 'WET-3'])
            extra['%s.X%d.basis.json' % (e, k)] = {'eft': e, 'basis': 'X%d' % k, 'sectors': {'sx': {'Cx%d' % k: None}}, 'metadata': {'description': 'ä%d' % k}}
        else:
            e, p = rng.choice([('SMEFT', 'Warsaw'), ('WET', 'flavio'), ('WET-3', 'JMS'), ('WET', 'JMS')])
            sec = work.eft_sectors(e)
            s = {rng.choice(sec): {'Cy%d' % k: {'real': True}}, 'new%d' % k: {'Cz': None}}
            extra['child/%s.Y%d.basis.json' % (e, k)] = {'eft': e, 'basis': 'Y%d' % k, 'parent': p, 'sectors': s}
    noise = rng.sample(['README.md', '.hidden.basis.json', 'SMEFT.Warsaw.basis.json~', 'x.eft.json.bak', 'old.basis.jsonl', 'child/.git.eft.json', 'child/readme.json'], rng.choice([0, 0, 2, 4]))
    allf = names + sorted(extra)
    damage = []
    if rng.random() < 0.4:
        for _ in range(rng.choice([1, 1, 2])):
            how = rng.choice(['torn', 'torn', 'torn', 'empty', 'binary', 'nokey', 'parent', 'list', 'garbage', 'half-utf8'])
            damage.append({'file': rng.choice(allf), 'how': how, 'frac': round(rng.random(), 4)})
    att = []
    n = rng.choice([1, 1, 2, 3])
    for k in range(n):
        a = {'order': rng.randrange(10 ** 6), 'first': rng.choice(MODULES)}
        if rng.random() < 0.45:
            f = rng.choice(allf)
            if f == 'SMEFT.eft.json' or rng.random() < 0.5:
                a['io'] = {f: [{'op': 'open', 'err': rng.choice(['EACCES', 'EIO', 'EMFILE', 'ENOENT', 'ESTALE'])}]}
            else:
                a['io'] = {f: [{'op': 'read', 'after': rng.choice([0, 1, 100, 1000, 4096, 8192]), 'err': rng.choice(['EIO', 'ESTALE', 'KeyboardInterrupt'])}]}
        elif rng.random() < 0.2:
            a['listing'] = [rng.choice(['bases', 'child', 'child']), rng.choice(['EACCES', 'EIO', 'ENOMEM', 'EMFILE'])]
        elif rng.random() < 0.3:
            a['io'] = {f: [{'op': 'read', 'short': rng.choice([1, 7, 100])}] for f in rng.sample(allf, 2)}
        if k and rng.random() < 0.6:
            a['repair'] = True
        att.append(a)
    return {'extra': extra, 'noise': noise, 'damage': damage, 'attempts': att}


def damaged(text, d, name):
    """The damaged content, or None if that leaves the file valid."""
    data = text.encode('utf-8')
    if d['how'] == 'torn':
        data = data[:int(len(data) * d['frac'])]
        try:
            json.loads(data)
            return None
        except ValueError:
            return data
    if d['how'] == 'empty':
        return b''
    if d['how'] == 'binary':
        return b'\xff\xfe\x00' + data
    if d['how'] == 'half-utf8':
        return data[:int(len(data) * d['frac'])] + b'\xc3'
    if d['how'] == 'garbage':
        return b'<html>' + data
    j = json.loads(text)
    if d['how'] == 'list':
        j = [j]
    elif d['how'] == 'nokey':
        j.pop('sectors')
    elif d['how'] == 'parent':
        if 'basis' not in j:
            return None
        j['parent'] = 'does not exist'
    return json.dumps(j).encode('utf-8')


_code = {}
_real_get_code = importlib.machinery.SourceFileLoader.get_code


def _prepare():
    """Compile the package once and import everything it uses from outside."""
    if _code:
        return
    import numpy, scipy.integrate, scipy.optimize, scipy.interpolate, scipy.linalg, pandas, yaml, voluptuous, rundec, ckmutil, ckmutil.ckm, ckmutil.diag, ckmutil.phases  # noqa
    for d, _, names in os.walk(core.PKG):
        for n in sorted(names):
            if n.endswith('.py') and not n.startswith('test_'):
                p = os.path.join(d, n)
                with open(p, 'rb') as f:
                    _code[p] = compile(f.read(), p, 'exec', dont_inherit=True)

    def get_code(self, fullname):
        c = _code.get(self.path)
        return c if c is not None else _real_get_code(self, fullname)
    importlib.machinery.SourceFileLoader.get_code = get_code


def warm():
    _prepare()


def canon(v, depth=0):
    import numpy as np
    if isinstance(v, dict):
        return ['dict', [[canon(k, depth + 1), canon(x, depth + 1)] for k, x in v.items()]]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__, [canon(x, depth + 1) for x in v]]
    if isinstance(v, (set, frozenset)):
        return ['set', sorted(json.dumps(canon(x, depth + 1)) for x in v)]
    if isinstance(v, np.ndarray):
        return ['array', str(v.dtype), list(v.shape), core.digest(v.tobytes().hex())]
    if v is None or isinstance(v, (bool, int, float, complex, str)):
        return repr(v)
    return type(v).__name__


def snapshot():
    from wilson import wcxf
    import wilson
    out = {'EFT': {}, 'Basis': {}}
    for name, x in wcxf.EFT.instances.items():
        out['EFT'][json.dumps(name)] = [{k: v for k, v in vars(x).items() if k[0] != '_'}, None]
    for name, x in wcxf.Basis.instances.items():
        out['Basis'][json.dumps(name)] = [{k: v for k, v in vars(x).items() if k[0] != '_'}, list(x.all_wcs)]
    out['bases'] = {json.dumps(n): sorted(x.known_bases) for n, x in wcxf.EFT.instances.items()}
    for c in ('Translator', 'Matcher'):
        out[c] = sorted([json.dumps(n), x.function.__module__, x.function.__name__] for n, x in getattr(wcxf, c).instances.items())
    data = {}
    for m in sorted(sys.modules):
        if (m == 'wilson' or m.startswith('wilson.')) and m not in ('wilson.wcxf',) and '.test_' not in m:
            for k, v in vars(sys.modules[m]).items():
                if not k.startswith('__') and isinstance(v, (dict, list, tuple, set, frozenset, str, int, float, complex)):
                    data['%s:%s' % (m, k)] = core.digest(canon(v))
                elif type(v).__module__.startswith('wilson.util'):
                    for q, x in vars(v).items():
                        data['%s:%s.%s' % (m, k, q)] = core.digest(canon(x))
    out['data'] = data
    out['default'] = core.digest(canon(wilson.Wilson._default_options))
    return out


def execute(plan):
    _prepare()
    from .. import world as w
    with work.Scratch() as sc:
        root = sc.path('defs')
        good = {}
        for n, t in files().items():
            good[n] = t
        for n, d in plan['extra'].items():
            good[n] = json.dumps(d)
        for n, t in good.items():
            sc.put('defs/' + n, t)
        for n in plan['noise']:
            sc.put('defs/' + n, '{"eft": ')
        hurt = set()
        for d in plan['damage']:
            if d['file'] in good:
                b = damaged(good[d['file']], d, d['file'])
                if b is not None:
                    sc.put('defs/' + d['file'], b)
                    hurt.add(d['file'])
        faults = collections.Counter('file:' + d['how'] for d in plan['damage'] if d['file'] in hurt)
        old = w.DEFS_ROOT[0]
        w.DEFS_ROOT[0] = root
        trace, outC = [], collections.Counter()
        try:
            for a in plan['attempts']:
                if a.get('repair'):
                    for n in hurt:
                        sc.put('defs/' + n, good[n])
                    hurt = set()
                plane.reset()
                plane.active = True
                plane.roots = [root]
                plane.listing_seed = a['order']
                plane.files = {os.path.join(root, n): f for n, f in a.get('io', {}).items()}
                if 'listing' in a:
                    plane.listing_only = 'defs' if a['listing'][0] == 'bases' else a['listing'][0]
                    plane.listing_err = a['listing'][1]

                def imp():
                    importlib.import_module(a['first'])
                    import wilson
                r = outcome(imp)
                plane.active = False
                fired = {k: v for k, v in plane.fired.items() if k not in ('disk:listing-order', 'disk:short-read')}
                faults.update(plane.fired)
                res = [r[0]] if r[0] == 'ok' else [r[0], r[1], r[2]]
                have = 'wilson' in sys.modules
                snap = snapshot() if r[0] == 'ok' else None
                trace.append([res, sorted(fired), sorted(hurt), have, snap])
                outC[r[0] if r[0] == 'ok' else r[1]] += 1
        finally:
            plane.active = False
            w.DEFS_ROOT[0] = old
    return {'trace': trace, 'faults': dict(faults), 'outcomes': outC, 'ops': {'import': len(trace)},
            'states': {core.digest([[t[0][0], t[1], t[2]] for t in trace])},
            'nontrivial': bool(faults), 'steps': 0}


def reference(name, *a):
    _prepare()
    from .. import world as w
    plane.reset()
    import wilson  # noqa
    importlib.import_module('wilson.wcxf.cli')
    importlib.import_module('wilson.wcxf.converters.eos')
    return snapshot()


def expected(plan):
    efts, bases = {}, {}
    fs = {n: json.loads(t) for n, t in files().items()}
    fs.update(copy.deepcopy(plan['extra']))
    for n, d in fs.items():
        if n.endswith('.eft.json'):
            efts[json.dumps(d['eft'])] = d
    for n, d in sorted(fs.items(), key=lambda x: 'parent' in x[1]):
        if n.endswith('.basis.json'):
            d = copy.deepcopy(d)
            if 'parent' in d:
                p = bases[json.dumps([d['eft'], d['parent']])]
                s = copy.deepcopy(p['sectors'])
                s.update(d['sectors'])
                d['sectors'] = s
            bases[json.dumps([d['eft'], d['basis']])] = d
    return efts, bases


def judge(plan, obs, refs):
    out = []
    done = False
    for i, (r, fired, hurt, have, snap) in enumerate(obs['trace']):
        a = plan['attempts'][i]
        what = 'import %d %s' % (i, json.dumps(a))
        if r[0] != 'ok':
            if done:
                out.append(Violation('import-fails', '%s fails although the package is imported: %s' % (what, r[1:])))
            elif not fired and not hurt:
                out.append(Violation('import-fails', '%s of intact definitions fails: %s: %s' % (what, r[1], r[2])))
            elif have:
                out.append(Violation('failed-import-stays', '%s fails (%s) but leaves the package imported' % (what, r[1])))
            continue
        if not done and (fired or hurt):
            out.append(Violation('part-imported', '%s succeeds although %s' % (what, '%s is damaged' % hurt if hurt else '%s happened' % fired)))
            continue
        done = True
        efts, bases = expected(plan)
        for c, want in (('EFT', efts), ('Basis', bases)):
            got = snap[c]
            if set(got) != set(want):
                out.append(Violation('wrong-registry', '%s: %s: missing %s, unknown %s' % (what, c, sorted(set(want) - set(got)), sorted(set(got) - set(want)))))
                continue
            for n in want:
                w = want[n]
                if json.dumps(got[n][0], sort_keys=True) != json.dumps(w, sort_keys=True):
                    out.append(Violation('wrong-definition', '%s: %s %s is not what its file and parent say' % (what, c, n)))
                elif c == 'Basis' and got[n][1] != [k for s in w['sectors'].values() for k in s]:
                    out.append(Violation('wrong-definition', '%s: all_wcs of %s differs' % (what, n)))
        for n, l in snap['bases'].items():
            want = sorted(json.loads(b)[1] for b in bases if json.loads(b)[0] == json.loads(n))
            if l != want:
                out.append(Violation('wrong-registry', '%s: known_bases of %s is %s instead of %s' % (what, n, l, want)))
        ref = refs('import')
        for c in ('Translator', 'Matcher'):
            if snap[c] != [list(x) for x in ref[c]]:
                out.append(Violation('wrong-registry', '%s: registered %ss differ: %s' % (what, c, [x for x in snap[c] if x not in ref[c]] + [x for x in ref[c] if x not in snap[c]])))
        bad = sorted(k for k in snap['data'] if k in ref['data'] and snap['data'][k] != ref['data'][k])
        if bad or snap['default'] != ref['default']:
            out.append(Violation('wrong-module-data', '%s: module data differs: %s' % (what, bad[:10])))
    return out


def shrink_paths(plan):
    return [('attempts',), ('damage',), ('noise',)]


def simplify(plan):
    for n in sorted(plan['extra']):
        q = copy.deepcopy(plan)
        del q['extra'][n]
        yield q
