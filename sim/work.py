"""Workloads shared by the checks: Wilson-coefficient points, targets, option
values, comparison of results, and the executable reference model of the
documented pipeline."""
import copy
import collections
import json
import math
import os

from . import core, sched
from .world import plane

REAL_ALL = ['wilson/classes.py', 'wilson/wcxf/', 'wilson/run/', 'wilson/match/',
            'wilson/translate/', 'wilson/util/', 'numpy', 'scipy', 'rundec', 'ckmutil', 'pandas', 'pyyaml', 'voluptuous']
STUB_DEFS = ('EFT and basis definition files (the wcxf-bases submodule is empty in this sandbox): '
             'reconstructed in /verif/sim/defs')
ASSUME_DEFS = ('The definition files of the missing wcxf-bases submodule are stand-ins with the same names, '
               'coefficients and sectors as the code uses; LaTeX strings in them are made up.')
ASSUME_FORK = 'A process forked from the freshly imported package stands for a fresh interpreter.'

_defs = {}


def basis_def(eft, basis):
    if not _defs:
        root = os.path.join(core.HERE, 'defs')
        files = []
        for d in (root, os.path.join(root, 'child')):
            files += sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.basis.json'))
        for f in files:
            with open(f) as fh:
                b = json.load(fh)
            sec = {}
            if 'parent' in b:
                sec.update(_defs[b['eft'], b['parent']])
            sec.update(b['sectors'])
            _defs[b['eft'], b['basis']] = sec
        for f in sorted(os.listdir(root)):
            if f.endswith('.eft.json'):
                with open(os.path.join(root, f)) as fh:
                    e = json.load(fh)
                _defs['eft', e['eft']] = list(e['sectors'])
    return _defs[eft, basis]


def eft_sectors(eft):
    basis_def('SMEFT', 'Warsaw')
    return _defs['eft', eft]


def all_keys(eft, basis):
    return [(k, bool((d or {}).get('real'))) for s in basis_def(eft, basis).values() for k, d in s.items()]


MAG = {'SMEFT': 1e-8, 'WET': 1e-6, 'WET-4': 1e-6, 'WET-3': 1e-6}


def point(rng, eft, basis, scale, n=None, mag=None, like=None, dense=0):
    """A JSON-able Wilson coefficient point; with probability `dense` all
    coefficients of one or two sectors."""
    keys = all_keys(eft, basis)
    if dense and rng.random() < dense:
        d = basis_def(eft, basis)
        ss = rng.sample(sorted(d), min(len(d), rng.choice([1, 1, 2])))
        keys = [(k, bool((x or {}).get('real'))) for q in ss for k, x in d[q].items()]
        n = rng.choice([12, 60, 200])
        like = None
    if like:
        keys = [k for k in keys if like in k[0]] or keys
    n = n or rng.choice([1, 2, 3, 5, 8])
    mag = mag or (MAG.get(eft, 1e-6) if basis in ('JMS', 'Warsaw', 'Warsaw up', 'Warsaw mass', 'FlavorKit') or eft == 'SMEFT' else 1e-2)
    vals = {}
    for k, real in rng.sample(keys, min(n, len(keys))):
        m = mag
        if k.startswith('llphiphi'):
            m = mag * 1e-6       # dimension five: keep neutrino masses small
        re = round(rng.uniform(-1, 1), 3) * m
        if real or rng.random() < 0.5:
            vals[k] = re
        else:
            vals[k] = [re, round(rng.uniform(-1, 1), 3) * m]
    return {'eft': eft, 'basis': basis, 'scale': scale, 'values': vals}


def sibling(rng, spec):
    """The same place and the same coefficients with other values: what is
    kept for one of the points must not be used for the other."""
    s = copy.deepcopy(spec)
    v = s['values']
    ks = list(v)
    how = rng.choice(['scale', 'one', 'sign', 'tiny', 'phase', 'swap', 'last'])

    def times(k, f):
        v[k] = [f * x for x in v[k]] if isinstance(v[k], list) else f * v[k]
    if how == 'scale':
        f = rng.choice([2.0, 0.5, -1.0, 1 + 10 ** rng.uniform(-6, -1)])
        for k in ks:
            times(k, f)
    elif how == 'one':
        times(rng.choice(ks), rng.choice([0.3, 1.7, -2.0]))
    elif how == 'last':
        times(ks[-1], 1.3)
    elif how == 'sign':
        times(rng.choice(ks), -1.0)
    elif how == 'tiny':
        times(rng.choice(ks), 1 + 10 ** rng.uniform(-12, -3))
    elif how == 'phase':
        c = [k for k in ks if isinstance(v[k], list)]
        if c:
            k = rng.choice(c)
            v[k] = rng.choice([[v[k][0], -v[k][1]], [v[k][1], v[k][0]]])
        else:
            times(ks[0], -1.0)
    elif len(ks) > 1:
        a, b = rng.sample(ks, 2)
        if type(v[a]) is type(v[b]):
            v[a], v[b] = v[b], v[a]
        else:
            times(a, 0.7)
    else:
        times(ks[0], 1.1)
    return s


def num(v):
    return complex(*v) if isinstance(v, list) else v


def wc_of(spec):
    from wilson import wcxf
    vals = {k: ({'Re': v[0], 'Im': v[1]} if isinstance(v, list) else v) for k, v in spec['values'].items()}
    return wcxf.WC(spec['eft'], spec['basis'], spec['scale'], vals)


def wilson_of(spec):
    import wilson
    return wilson.Wilson({k: num(v) for k, v in spec['values'].items()}, spec['scale'], spec['eft'], spec['basis'])


def number(v):
    if isinstance(v, dict):
        return complex(float(v.get('Re', 0)), float(v.get('Im', 0)))
    if isinstance(v, (list, tuple)):
        return complex(*v)
    return complex(v)


def snap(wc):
    """What a WC says, as plain data (from the public values, not caches)."""
    return {'eft': wc.eft, 'basis': wc.basis, 'scale': float(wc.scale),
            'values': {str(k): number(v) for k, v in wc.values.items()}}


def full_snap(wc):
    s = snap(wc)
    s['dict'] = {str(k): complex(v) for k, v in wc.dict.items()}
    return s


def close_values(a, b, rtol=1e-7, atol=1e-12):
    """Compare two coefficient dictionaries; None or a description."""
    keys = set(a) | set(b)
    m = max([abs(x) for x in a.values()] + [abs(x) for x in b.values()] + [0.0])
    for k in sorted(keys):
        x, y = a.get(k, 0), b.get(k, 0)
        if not (_fin(x) and _fin(y)):
            if _fin(x) != _fin(y):
                return '%s: %r vs %r' % (k, x, y)
            continue
        if abs(x - y) > rtol * max(abs(x), abs(y)) + atol * m:
            return '%s: %r vs %r' % (k, x, y)
    return None


def _fin(x):
    return math.isfinite(x.real) and math.isfinite(x.imag)


def close_snap(a, b, **kw):
    for k in ('eft', 'basis'):
        if a[k] != b[k]:
            return '%s %r vs %r' % (k, a[k], b[k])
    if abs(a['scale'] - b['scale']) > 1e-9 * abs(b['scale']):
        return 'scale %r vs %r' % (a['scale'], b['scale'])
    return close_values(a['values'], b['values'], **kw)


# ---------------------------------------------------------------------------
# options

OPTION_VALUES = {
    'smeft_accuracy': ['integrate', 'leadinglog'],
    'qed_order': [0, 1],
    'qcd_order': [0, 1],
    'smeft_matching_order': [0, 1],
    'smeft_matchingscale': [91.1876, 80.0, 120.0, 160.0],
    'mb_matchingscale': [4.2, 4.5, 5.0],
    'mc_matchingscale': [1.3, 1.5],
    'parameters': [{}, {'Vcb': 0.04}, {'Vus': 0.23, 'gamma': 1.1}, {'m_b': 4.3}, {'GF': 1.2e-5, 'm_c': 1.2}],
}
DEFAULTS = {'smeft_accuracy': 'integrate', 'qed_order': 1, 'qcd_order': 1, 'smeft_matching_order': 0,
            'smeft_matchingscale': 91.1876, 'mb_matchingscale': 4.2, 'mc_matchingscale': 1.3, 'parameters': {}}
BAD_OPTIONS = [('smeft_accuracy', 'exact'), ('qed_order', 2), ('qcd_order', 'x'), ('mb_matchingscale', 'heavy'),
               ('parameters', {'Vcb': 'big'}), ('no_such_option', 1), ('smeft_matching_order', 3),
               ('mc_matchingscale', None), ('parameters', {'gamma': None})]


def options_of(w):
    return {k: w.get_option(k) for k in OPTION_VALUES}


# ---------------------------------------------------------------------------
# the reference model: the documented pipeline, step by step, nothing cached

def pipeline(spec, opt, scale, eft, basis, sectors='all'):
    """What Wilson(...).match_run(scale, eft, basis, sectors) is documented to
    compute, composed from the public one-step operations."""
    from wilson import wcxf
    from wilson import parameters as par
    from wilson.run.smeft import SMEFT
    from wilson.run.wet import WETrunner
    o = dict(DEFAULTS)
    o.update(opt or {})
    sectors = sectors if sectors == 'all' else tuple(sectors)
    ts = None if sectors == 'all' else sectors
    p = dict(par.p)
    p.update(o['parameters'])
    mp = dict(p)
    mp['loop_order'] = o['smeft_matching_order']
    ord_ = {'parameters': p, 'qed_order': o['qed_order'], 'qcd_order': o['qcd_order']}
    wc = wc_of(spec)
    if wc.eft == eft and wc.scale == scale:
        if wc.basis == basis:
            return wc
        return wc.translate(basis, sectors=ts, parameters=p)
    if wc.eft == 'SMEFT':
        acc = o['smeft_accuracy']
        if eft == 'SMEFT':
            out = SMEFT(wc.translate('Warsaw', parameters=p)).run(scale, accuracy=acc)
            return out.translate(basis, parameters=p)
        ew = o['smeft_matchingscale']
        if wc.scale == ew:
            wc = wc.match('WET', 'JMS', parameters=mp)
        else:
            wc = SMEFT(wc.translate('Warsaw', parameters=p)).run(ew, accuracy=acc).match('WET', 'JMS', parameters=mp)
    elif wc.eft in ('WET', 'WET-4', 'WET-3'):
        wc = wc.translate('JMS', parameters=p, sectors=ts)
    else:
        raise ValueError('unknown EFT')
    chain = ['WET', 'WET-4', 'WET-3']
    thr = {'WET': o['mb_matchingscale'], 'WET-4': o['mc_matchingscale']}
    if eft not in chain or chain.index(eft) < chain.index(wc.eft):
        raise ValueError('not implemented')
    while wc.eft != eft:
        nxt = chain[chain.index(wc.eft) + 1]
        wc = WETrunner(wc, **ord_).run(thr[wc.eft], sectors=sectors).match(nxt, 'JMS', parameters=mp)
    wc = WETrunner(wc, **ord_).run(scale, sectors=sectors)
    return wc.translate(basis, sectors=ts, parameters=p)


def ref_pipeline(*a):
    r = core.outcome(pipeline, *a)
    return ('ok', snap(r[1])) if r[0] == 'ok' else r


# ---------------------------------------------------------------------------
# scheduling positions

_LINES = {}


def lines_for(shape, make):
    """Lines executed by an example call of kind `shape` (JSON-able; it
    determines the example completely, so that plans depend on the seed only).
    make() prepares and returns the function to record; it runs in a fork of
    this pristine process."""
    k = json.dumps(shape, sort_keys=True)
    if k not in _LINES:
        st = core.fork_call(_record, make)
        if st[0] != 'ok':
            _LINES[k] = []
        else:
            _LINES[k] = sorted(st[1].items())
    return _LINES[k]


def _record(make):
    c = collections.Counter()
    fn = make()

    def body(s, t):
        core.outcome(fn)
    for lab, cnt in sched.record_lines([body]).items():
        c.update(cnt)
    return dict(c)


def pick_line(rng, lines, prefer=('wilson/classes.py', 'wilson/wcxf/classes.py')):
    """(loc, occurrence): state-holding code is preferred to numerics."""
    if not lines:
        return None
    r = rng.random()
    pool = lines
    if prefer and r < 0.6:
        f = prefer[0] if r < 0.4 else prefer[rng.randrange(len(prefer))]
        pool = [l for l in lines if l[0].startswith(f)] or lines
    loc, cnt = rng.choice(pool)
    n = 1 if cnt == 1 or rng.random() < 0.5 else rng.randint(1, min(cnt, 200))
    return loc, n


LIB_FAULTS = [('solve_ivp', 'MemoryError'), ('solve_ivp', ['incomplete', 0.4]), ('linalg.eig', 'LinAlgError'),
              ('linalg.inv', 'LinAlgError'), ('einsum', 'MemoryError'), ('ckmutil', 'LinAlgError'),
              ('rundec', 'MemoryError'), ('alphas', 'zero'), ('pkgutil.get_data', 'OSError'),
              ('ckm_tree', 'MemoryError')]


class World:
    """Activates the planes of a run inside the forked child."""

    def __init__(self, plan):
        self.plan = plan
        line = [f for f in plan.get('faults', []) if 'at' in f]
        self.lib = {}
        for f in plan.get('faults', []):
            if 'lib' in f:
                self.lib.setdefault(f['op'], []).append(f)
        self.sim = sched.Sim(line)
        self.sim.adopt(0)
        self.watching = False
        import random
        random.seed(plan.get('seed', 0))
        plane.reset()
        plane.active = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.watching:
            self.sim.stop()
        plane.active = False

    def begin(self, i):
        """Operation i starts: arm its library faults."""
        self.sim.op(i)
        want = ('0.%d' % i) in self.sim.labels_with_actions
        if want != self.watching:
            # line events are only paid for where the plan uses them
            (self.sim.start if want else self.sim.stop)()
            self.watching = want
        plane.lib = {}
        plane.calls.clear()
        for f in self.lib.get(i, ()):
            plane.lib.setdefault(f['lib'], {})[str(f['call'])] = f['act']
        self.before = sum(self.sim.fired.values()) + sum(plane.fired.values())

    def end(self):
        self.sim.op(-1)
        plane.lib = {}

    def fired(self):
        """Did any fault strike since begin()?"""
        return sum(self.sim.fired.values()) + sum(plane.fired.values()) - self.before

    def faults(self):
        c = collections.Counter(self.sim.fired)
        c.update(plane.fired)
        return dict(c)


def move_faults(plan, removed):
    """Operations were removed from plan['ops']: move the faults along."""
    rem = set(removed)
    new = []
    for f in plan.get('faults', []):
        if f['op'] in rem:
            continue
        d = sum(1 for r in rem if r < f['op'])
        f = dict(f, op=f['op'] - d)
        if 'at' in f:
            f['at'] = ['0.%d' % f['op']] + f['at'][1:]
        new.append(f)
    plan['faults'] = new
    return plan


class Scratch:
    """A scratch directory of one run, seen by the run as simulated disk."""

    count = 0

    def __enter__(self):
        import tempfile
        # a plain name: a random one might mean something to somebody
        while True:
            Scratch.count += 1
            self.dir = os.path.join(os.path.realpath(tempfile.gettempdir()), 'verif-sim-%d-%d' % (os.getpid(), Scratch.count))
            try:
                os.mkdir(self.dir, 0o700)
                break
            except FileExistsError:
                pass
        plane.roots = [self.dir]
        return self

    def path(self, *names):
        return os.path.join(self.dir, *names)

    def put(self, name, data):
        """Write a file outside of the simulation."""
        from .world import _real_open
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with _real_open(p, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        return p

    def get(self, name):
        from .world import _real_open
        try:
            with _real_open(self.path(name), 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def tree(self):
        out = []
        a, plane.active = plane.active, False
        try:
            for d, ds, fs in os.walk(self.dir):
                out += [os.path.relpath(os.path.join(d, f), self.dir) for f in fs + ds]
        finally:
            plane.active = a
        return sorted(out)

    def __exit__(self, *a):
        import shutil
        act, plane.active = plane.active, False
        try:
            shutil.rmtree(self.dir, ignore_errors=True)
        finally:
            plane.active = act
            plane.roots = []
